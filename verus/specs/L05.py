import os
from vgen import Spec, PRE, sub_rule, r_continue, r_ok_or_else, r_label_continue
import L01
import sweepx
import sweepg

R2 = "src/linestring_2d.rs"
RI = "src/linestring_2d/intersection.rs"

KEY = """
impl<T: GenericVector2> KeyOrd for SiteEventKey<T> {
    open spec fn kp(&self) -> V { vv(self.pos) }
    fn key_cmp(&self, other: &Self) -> (r: Ordering) { self.cmp(other) }
}
impl<T: GenericVector2> SiteEventKey<T> {
    /// PartialOrd::lt
    pub fn lt(&self, other: &Self) -> (r: bool) ensures r == klt(vv(self.pos), vv(other.pos)) { match self.partial_cmp(other) { Some(Ordering::Less) => true, _ => false } }
}
pub open spec fn mms<T: GenericVector2>(s: MinMaxSlope<T>, n: int) -> bool { below(s.candidates_left@, n) && below(s.candidates_right@, n) }
"""

DATA = """
pub open spec fn wf<T: GenericVector2>(d: IntersectionData<T>) -> bool {
    d.site_events is Some && all_proper(d.lines@) && queue(d.lines@, bm(d.site_events->0), vv(d.sweepline_pos), true) && known(d.lines@, bm(d.site_events->0), vv(d.sweepline_pos), true)
}
/// the line l as it was or with its ends exchanged
pub open spec fn same_line<T>(l: Line2<T>, o: Line2<T>) -> bool { (o.start == l.start && o.end == l.end) || (o.start == l.end && o.end == l.start) }
pub open spec fn taken<T>(old_: Seq<Line2<T>>, input: Seq<Line2<T>>, k: int, f: Seq<Line2<T>>) -> bool {
    &&& f.len() == old_.len() + k
    &&& forall|i: int| 0 <= i < old_.len() ==> #[trigger] f[i] == old_[i]
    &&& forall|i: int| 0 <= i < k ==> same_line(input[i], #[trigger] f[old_.len() + i])
}
"""




COUNT = sub_rule("item_list", r"event\.(\w+)\.iter\(\)\.flatten\(\)\.count\(\)", r"flat_(&event.\1).len()")
FOR = sub_rule("item_list", r"in event\.(\w+)\.iter\(\)\.flatten\(\)", r"in flat_(&event.\1).iter()")
ARG = sub_rule("item_list", r"event\.(\w+)\.iter\(\)\.flatten\(\)", r"flat_(&event.\1)")
SET = sub_rule("item_list", r"for line_index in active_lines\.iter\(\)", r"let ids__ = active_lines.list_(); for line_index in ids__.iter()")
SORT = sub_rule("std_contract", r"\.sort_unstable\(\)", ".sort_ids_()")
DEDUP = sub_rule("std_contract", r"\.dedup\(\)", ".dedup_ids_()")
IDENT = sub_rule("map_or_identity", r"\.map_or\((.*?), identity\)", r".unwrap_or(\1)")
VECDEF = sub_rule("vec_default", r"Vec::default\(\)|Vec::<usize>::default\(\)", "Vec::<usize>::new()")
TOVEC = sub_rule("std_contract", r"\bi\.to_vec\(\)|\bl\.to_vec\(\)", lambda m: m.group(0)[0] + ".to_vec_()")
SWAP = sub_rule("swap", r"std::mem::swap", "core::mem::swap")
TEXT = sub_rule("error_text", r'"[^"]*"\s*\.to_string\(\)', "stub_string()")
PATH = sub_rule("path", r"linestring_2d::", "")
SLICE = sub_rule("deref", r"&((?:neighbour_priority\.slope|connected_priority)\.candidates_\w+)", r"\1.as_slice()")

XHINTS = [
          (("before", "return Some"), """proof { if ry(other.start) != ry(other.end) {
            assert((rv(x1) - rv(x1)) * (rv(y2) - rv(y1)) == 0real) by(nonlinear_arith); assert((rv(x2) - rv(x1)) * (ry(sweepline) - rv(y1)) == 0real) by(nonlinear_arith) requires rv(x1) == rv(x2);
            lemma_line_x(vv(other.start), vv(other.end), ry(sweepline), rv(x1)); } }"""),
          ("tail", """proof { let x__ = (ry(sweepline) - rv(d)) / rv(slope);
            lemma_slope_x(rv(x1), rv(y1), rv(x2), rv(y2), ry(sweepline), rv(slope), x__);
            lemma_line_x(vv(other.start), vv(other.end), ry(sweepline), x__); }""")]

ADDS = "\n        match r { None => bm"


def slopes(s, rel, both):
    H, M = "impl<T: GenericVector2> MinMaxSlope<T>", "impl<T: GenericVector2> MinMax<T>"
    n = "forall|n: int| mms(*old(self), n) && candidate_index < n ==> #[trigger] mms(*final(self), n)"
    s.fn(rel, "MinMaxSlope", "new", ens="forall|n: int| #[trigger] mms(r, n), r.best_left is None, r.best_right is None", rules=[VECDEF], header=H)
    for f, a, b, d in (("update_left", "left", "right", "false"), ("update_right", "right", "left", "true")):
        s.fn(rel, "MinMaxSlope", f, header=H, ens=n + """,
            final(self).best_%s == old(self).best_%s, final(self).candidates_%s@ == old(self).candidates_%s@,
            took2(%s, if clear { None } else { orv(old(self).best_%s) }, old(self).candidates_%s@, rv(candidate_slope), candidate_index, orv(final(self).best_%s), final(self).candidates_%s@)""" % (b, b, b, b, d, a, a, a, a),
             hints=[("entry", "let ghost l0__ = self.candidates_%s@; proof { lemma_vpush(l0__, candidate_index); lemma_vpush(Seq::<usize>::empty(), candidate_index); lemma_push(l0__, candidate_index); }" % a),
                    ("exit", "assert(self.candidates_%s@ =~= l0__ || self.candidates_%s@ =~= l0__.push(candidate_index) || self.candidates_%s@ =~= Seq::<usize>::empty().push(candidate_index));" % (a, a, a))])
    s.fn(rel, "MinMaxSlope", "update_both", header=H, **both)
    s.fn(rel, "MinMaxSlope", "clear", ens="forall|n: int| #[trigger] mms(*final(self), n), final(self).best_left is None, final(self).best_right is None", header=H)
    s.fn(rel, "MinMax", "new", ens="forall|n: int| #[trigger] mms(r.slope, n), sync(r), r.best_left is None, r.best_right is None", header=M)
    s.fn(rel, "MinMax", "update", ens="""forall|n: int| mms(old(self).slope, n) && candidate_index < n ==> #[trigger] mms(final(self).slope, n),
            sync(*old(self)) ==> sync(*final(self)) && side_took(*old(self), *final(self), rv(pivot_x), rv(candidate_x), candidate_index)""", header=M)
    s.fn(rel, "MinMax", "clear", ens="forall|n: int| #[trigger] mms(final(self).slope, n), sync(*final(self)), final(self).best_left is None, final(self).best_right is None", header=M)


def keys(s, rel):
    s.type(rel, "SiteEventKey", prefix="#[derive(Clone, Copy)]\n")
    s.fn(rel, "PartialOrd for SiteEventKey", "partial_cmp", inherent="impl<T: GenericVector2> SiteEventKey<T>", ens="r == Some(kcmp(vv(self.pos), vv(other.pos)))")
    s.fn(rel, "PartialEq for SiteEventKey", "eq", inherent="impl<T: GenericVector2> SiteEventKey<T>", rename="eq_", ens="r == (kcmp(vv(self.pos), vv(other.pos)) == Ordering::Equal)")
    s.fn(rel, "Ord for SiteEventKey", "cmp", inherent="impl<T: GenericVector2> SiteEventKey<T>", ens="r == kcmp(vv(self.pos), vv(other.pos))")


def handle_loops(L, act, keep, n):
    pos = "self.sweepline_pos == key.pos, "
    nd = "%s, near(%s, vv(key.pos), ids__@.take(it1.index@ as int), ol(event.intersection), true, orv(neighbour_priority.best_left), neighbour_priority.slope.candidates_left@), near(%s, vv(key.pos), ids__@.take(it1.index@ as int), ol(event.intersection), false, orv(neighbour_priority.best_right), neighbour_priority.slope.candidates_right@)"
    fl = lambda x, y: "flat(%s, %s, %s, false, orv(connected_priority.best_left), connected_priority.candidates_left@), flat(%s, %s, %s, true, orv(connected_priority.best_right), connected_priority.candidates_right@)" % (L, x, y, L, x, y)
    return [("for", "invariant %s, forall|x: usize| #[trigger] hs(*active_lines).contains(x) <==> act0__.contains(x) && !ol(event.drop).take(it0.index@ as int).contains(x)" % act("active_lines")),
            ("for", "invariant %s, mms(neighbour_priority.slope, %s as int), ids__@.no_duplicates(), forall|x: usize| #[trigger] ids__@.contains(x) ==> x < %s, %s" % (keep, n, n, pos + nd % ("sync(*neighbour_priority)", L, L))),
            ("for", "invariant skip__ <==> ol(event.intersection).take(it2.index@ as int).contains(*line_index)"),
            ("for", "invariant %s, starts(%s, vv(key.pos), ol(event.add)), %s, forall|x: usize| #[trigger] hs(*active_lines).contains(x) <==> act1__.contains(x) || ol(event.add).take(it3.index@ as int).contains(x)" % (keep, L, act("active_lines"))),
            ("for", "invariant %s, starts(%s, vv(key.pos), ol(event.add)), mms(*connected_priority, %s as int), %s" % (keep, L, n, fl("ol(event.add).take(it4.index@ as int)", "Seq::<usize>::empty()"))),
            ("for", "invariant %s, crosses(%s, vv(key.pos), ol(event.intersection)), mms(*connected_priority, %s as int), %s" % (keep, L, n, fl("ol(event.add)", "ol(event.intersection).take(it5.index@ as int)")))]


def handle_hints(L):
    taken = lambda s, k: "lemma_take(%s, %s.index@ as int);" % (s, k)
    full = lambda s: "assert(%s.take(%s.len() as int) =~= %s);" % (s, s, s)
    flats = """proof {
                let ls__ = %s; let c__ = *l;
                if gp(sgs(ls__)) { lemma_sgs(ls__, c__ as int); }
                lemma_flat(ls__, %%s, %%s, %%s, %%s, false, bl__, cl__, c__, orv(connected_priority.best_left), connected_priority.candidates_left@);
                lemma_flat(ls__, %%s, %%s, %%s, %%s, true, br__, cr__, c__, orv(connected_priority.best_right), connected_priority.candidates_right@);
            }""" % L
    a4, e0, c5 = "ol(event.add).take(it4.index@ as int)", "Seq::<usize>::empty()", "ol(event.intersection).take(it5.index@ as int)"
    f4 = (a4, e0, "ol(event.add).take(it4.index@ as int + 1)", e0)
    f5 = ("ol(event.add)", c5, "ol(event.add)", "ol(event.intersection).take(it5.index@ as int + 1)")
    cp = " let ghost (bl__, cl__, br__, cr__) = (orv(connected_priority.best_left), connected_priority.candidates_left@, orv(connected_priority.best_right), connected_priority.candidates_right@);"
    return [("entry", """let ghost r0__ = bm(*result); let ghost act0__ = hs(*active_lines); let ghost qs__ = bm(*site_events);
        let ghost (q0__, at0__, all0__) = choose|q0: Map<V, (SiteEventKey<T>, SiteEvent)>, at: V, all: bool| #[trigger] due_at(%s, q0, at, all, vv(key.pos), *event, act0__, qs__);
        proof { lemma_apart(%s, vv(key.pos), *event); }""" % (L, L)),
            (("body_start", 0), "proof { " + taken("ol(event.drop)", "it0") + " }"),
            (("after_loop", 0), full("ol(event.drop)")),
            (("before_loop", 1), "proof { lemma_near0(%s, vv(key.pos), ol(event.intersection), true, neighbour_priority.slope.candidates_left@); lemma_near0(%s, vv(key.pos), ol(event.intersection), false, neighbour_priority.slope.candidates_right@); assert(ids__@.take(0) =~= Seq::<usize>::empty()); }" % (L, L)),
            (("body_start", 1), "assert(ids__@.contains(ids__@[it1.index@ as int])); let ghost m0__ = *neighbour_priority; proof { " + taken("ids__@", "it1") + " }"),
            (("body_end", 1), """proof {
                %s
                let ls__ = %s; let c__ = *line_index; let m1__ = *neighbour_priority;
                if gp(sgs(ls__)) { lemma_sgs(ls__, c__ as int); }
                lemma_near(ls__, vv(key.pos), ids__@.take(it1.index@ as int), ol(event.intersection), true, orv(m0__.best_left), m0__.slope.candidates_left@, c__, orv(m1__.best_left), m1__.slope.candidates_left@);
                lemma_near(ls__, vv(key.pos), ids__@.take(it1.index@ as int), ol(event.intersection), false, orv(m0__.best_right), m0__.slope.candidates_right@, c__, orv(m1__.best_right), m1__.slope.candidates_right@);
            }""" % (full("ol(event.intersection)"), L)),
            (("after_loop", 1), full("ids__@") + " let ghost act1__ = hs(*active_lines);"),
            (("body_start", 2), "proof { " + taken("ol(event.intersection)", "it2") + " }"),
            (("body_start", 3), "assert(ol(event.add).contains(ol(event.add)[it3.index@ as int])); proof { " + taken("ol(event.add)", "it3") + " }"),
            (("after_loop", 3), full("ol(event.add)") + " let ghost mut mid__ = bm(*site_events);"),
            (("before_loop", 4), "proof { lemma_flat0(%s, false, connected_priority.candidates_left@); lemma_flat0(%s, true, connected_priority.candidates_right@); assert(ol(event.add).take(0) =~= Seq::<usize>::empty()); }" % (L, L)),
            (("body_start", 4), "assert(ol(event.add).contains(ol(event.add)[it4.index@ as int])); proof { " + taken("ol(event.add)", "it4") + " }" + cp),
            (("body_end", 4), flats % (f4 + f4)),
            (("before_loop", 5), full("ol(event.add)") + " assert(ol(event.intersection).take(0) =~= Seq::<usize>::empty());"),
            (("body_start", 5), "assert(ol(event.intersection).contains(ol(event.intersection)[it5.index@ as int])); proof { " + taken("ol(event.intersection)", "it5") + " }" + cp),
            (("body_end", 5), flats % (f5 + f5)),
            (("after_loop", 5), full("ol(event.intersection)")),
            (("before", "if ! neighbour_priority . slope . candidates_right"), "proof { mid__ = bm(*site_events); }"),
            ("tail", """proof {
            let ls__ = %s; let e__ = vv(key.pos); let qf__ = bm(*site_events);
            let (nl, nr, cl, cr) = (neighbour_priority.slope.candidates_left@, neighbour_priority.slope.candidates_right@, connected_priority.candidates_left@, connected_priority.candidates_right@);
            assert(vstd::std_specs::vec::spec_vec_len(&self.lines) == self.lines@.len());
            lemma_end(ls__, q0__, at0__, all0__, e__, ids__@, act0__, *event, orv(neighbour_priority.best_left), nl, orv(neighbour_priority.best_right), nr, cl, cr, qs__, mid__, qf__, hs(*active_lines));
        }""" % L)]


def parts(s):
    L01.parts(s)
    s.prelude("stdx")
    s.assumptions.append("L05: BTreeMap is a map sorted by the proved key order, AHashSet a set, sort_unstable and dedup keep the listed numbers, a Vec<usize> has at most usize::MAX/8 items (treex.rs); with_lines/with_edges are given the list of items of their iterator")
    s.raw("pub struct IoErr;")
    s.type("src/lib.rs", "LinestringError", rules=[sub_rule("io_error", r"std::io::Error", "IoErr")])
    s.use("core::cmp::Ordering")
    s.ghost("pub fn stub_string() -> (r: String) { String::new() }")
    s.ghost(open(os.path.join(PRE, "treex.rs")).read())
    keys(s, RI)
    s.fn(RI, "SiteEventKey", "new", ens="r.pos == pos")
    for t in ("MinMax", "MinMaxSlope", "SiteEvent", "IntersectionData"):
        s.type(RI, t, rules=[PATH], prefix="" if t == "SiteEvent" else "#[verifier::reject_recursive_types(T)]\n")
    s.pure(sweepg.PURE)
    s.pure(sweepx.PURE)
    s.ghost(sweepx.GHOST)
    s.ghost(sweepg.GHOST)
    s.ghost(KEY)
    s.ghost(DATA)
    slopes(s, RI, dict(req="candidate_index < lines@.len()", ens="""forall|n: int| mms(*old(self), n) && candidate_index < n ==> #[trigger] mms(*final(self), n),
            up(sg(lines@[candidate_index as int])) ==> both_took(*old(self), *final(self), lean(sg(lines@[candidate_index as int])), candidate_index)""",
                       hints=[(("before", "self . update_left"), "proof { if up(sg(line)) { lemma_line_k(vv(line.start), vv(line.end), rv(candidate_slope)); } }")]))
    s.fn(RI, "SiteEvent", "with_intersection", rules=[TOVEC], ens="r.drop is None, r.add is None, r.intersection is Some, ol(r.intersection) == i@")
    s.fn(RI, "SiteEvent", "with_drop", rules=[TOVEC], ens="r.intersection is None, r.add is None, ol(r.drop) == l@")
    s.fn(RI, "SiteEvent", "with_add", rules=[TOVEC], ens="r.intersection is None, r.drop is None, ol(r.add) == l@")
    s.fn(RI, "SiteEvent", "get_intersections", ens="*r == self.intersection")
    s.fn(RI, None, "sweepline_intersection", ens="up(sg(*other)) ==> r is Some && rv((r->0).0) == xa(sg(*other), ry(sweepline))", hints=XHINTS)
    s.fn(RI, "Default for IntersectionData", "default", inherent="impl<T: GenericVector2> IntersectionData<T>", ens="wf(r), r.lines@.len() == 0, !r.ignore_end_point_intersections, !r.stop_at_first_intersection")
    D = "IntersectionData"
    s.fn(RI, D, "get_sweepline_pos", ens="*r == self.sweepline_pos")
    s.fn(RI, D, "get_lines", ens="*r == self.lines")
    same = "r->Ok_0.lines == self.lines, r->Ok_0.site_events == self.site_events, r->Ok_0.sweepline_pos == self.sweepline_pos"
    s.fn(RI, D, "with_stop_at_first_intersection", ens="r is Ok, wf(self) ==> wf(r->Ok_0), r->Ok_0.stop_at_first_intersection == value, r->Ok_0.ignore_end_point_intersections == self.ignore_end_point_intersections, " + same)
    s.fn(RI, D, "with_ignore_end_point_intersections", ens="r is Ok, wf(self) ==> wf(r->Ok_0), r->Ok_0.ignore_end_point_intersections == value, r->Ok_0.stop_at_first_intersection == self.stop_at_first_intersection, " + same)
    lists = lambda gen, params, rt, wh: ("", params.replace("input_iter: IT", "input_iter: Vec<Line2<T>>"), rt, "")
    s.fn(RI, D, "with_lines", sig=lists, rules=[r_ok_or_else, IDENT, SWAP, TEXT],
         req="wf(self), all_proper(input_iter@)",
         ens="""r is Ok ==> wf(r->Ok_0) && taken(self.lines@, input_iter@, input_iter@.len() as int, r->Ok_0.lines@)
            && (forall|i: int| 0 <= i < input_iter@.len() ==> fin2((#[trigger] input_iter@[i]).start) && fin2(input_iter@[i].end))
            && r->Ok_0.ignore_end_point_intersections == self.ignore_end_point_intersections && r->Ok_0.stop_at_first_intersection == self.stop_at_first_intersection,
            (forall|i: int| 0 <= i < input_iter@.len() ==> fin2((#[trigger] input_iter@[i]).start) && fin2(input_iter@[i].end)) ==> r is Ok""",
         loops=[("for", """invariant forall|i: int| 0 <= i < it0.index@ ==> fin2((#[trigger] input_iter@[i]).start) && fin2(input_iter@[i].end), taken(self.lines@, input_iter@, it0.index@ as int, me__.lines@), it0.seq() == input_iter@, all_proper(input_iter@), all_proper(me__.lines@),
            queue(me__.lines@, bm(site_events), vv(self.sweepline_pos), true), known(me__.lines@, bm(site_events), vv(self.sweepline_pos), true), me__.sweepline_pos == self.sweepline_pos,
            me__.ignore_end_point_intersections == self.ignore_end_point_intersections, me__.stop_at_first_intersection == self.stop_at_first_intersection""")],
         hints=[(("body_start", 0), "let ghost l0__ = me__.lines@; let ghost q0__ = bm(site_events); let ghost in__ = aline;"),
                (("before", "if let Some ( event ) = site_events . get_mut ( & key_start )"), "assert(vv(aline.start) == lo(aline) && vv(aline.end) == hi(aline)); assert(same_line(in__, aline)); assert(proper(in__));"),
                (("before", "if let Some ( event ) = site_events . get_mut ( & key_end )"), """let ghost q1__ = bm(site_events);
            proof { assert(proper(aline)); assert(me__.lines@ == l0__.push(aline)); lemma_start(l0__, aline, q0__, lo(aline), index, q1__); }"""),
                (("body_end", 0), """proof {
                let q2__ = bm(site_events);
                lemma_stop(me__.lines@, q1__, hi(aline), index, q2__);
                lemma_known(l0__, aline, q0__, q1__, q2__, vv(self.sweepline_pos), index);
                assert forall|i: int| 0 <= i < me__.lines@.len() implies queued(q2__, #[trigger] me__.lines@[i], vv(self.sweepline_pos), true) by {
                    if i < l0__.len() { assert(queued(q0__, l0__[i], vv(self.sweepline_pos), true)); }
                }
            }""")])
    s.fn(RI, D, "add_intersection_event", rules=[r_continue, SORT, DEDUP],
         req="""events(self.lines@, bm(*old(site_events))), intersecting_lines@.len() == 2, intersecting_lines@[0] != intersecting_lines@[1],
            forall|k: int| 0 <= k < 2 ==> (#[trigger] intersecting_lines@[k]) < self.lines@.len() && on(self.lines@[intersecting_lines@[k] as int], vv(position.pos)),
            !bm(*old(site_events)).dom().contains(vv(position.pos)) ==> crosses(self.lines@, vv(position.pos), intersecting_lines@) && spot(self.lines@, vv(position.pos))""",
         ens="""events(self.lines@, bm(*final(site_events))), bm(*final(site_events)).dom() =~= bm(*old(site_events)).dom().insert(vv(position.pos)),
            kept(bm(*old(site_events)), bm(*final(site_events))),
            forall|k: int| 0 <= k < 2 && interior(self.lines@[intersecting_lines@[k] as int], vv(position.pos)) ==> inters(bm(*final(site_events)), vv(position.pos)).contains(#[trigger] intersecting_lines@[k])""",
         loops=[("for", """invariant event.add == e0__.add, event.drop == e0__.drop, wider(self.lines@, vv(position.pos), ol(e0__.intersection), ol(event.intersection)),
            intersections_added > 0 ==> event.intersection is Some, intersections_added == 0 ==> event.intersection == e0__.intersection, 0 <= intersections_added <= it0.index@, it0.seq() == intersecting_lines@.map_values(|x: usize| &x) || true,
            intersecting_lines@.len() == 2,
            forall|k: int| 0 <= k < it0.index@ && interior(self.lines@[intersecting_lines@[k] as int], vv(position.pos)) ==> ol(event.intersection).contains(#[trigger] intersecting_lines@[k]),
            forall|k: int| 0 <= k < 2 ==> (#[trigger] intersecting_lines@[k]) < self.lines@.len() && on(self.lines@[intersecting_lines@[k] as int], vv(position.pos))""")],
         hints=[("entry", "let ghost q0__ = bm(*site_events); let ghost p__ = vv(position.pos);"),
                (("before", "let mut intersections_added"), "let ghost e0__ = *event;"),
                (("body_start", 0), "let ghost s0__ = ol(event.intersection); assert(*new_intersection == intersecting_lines@[it0.index@ as int]);"),
                (("body_end", 0), """proof {
                    let s1__ = ol(event.intersection);
                    lemma_push(s0__, *new_intersection);
                    assert(s1__ =~= s0__ || (s1__ =~= s0__.push(*new_intersection) && interior(self.lines@[*new_intersection as int], vv(position.pos))));
                    assert(wider(self.lines@, vv(position.pos), s0__, s1__));
                }"""),
                ("exit", """proof {
            let q1__ = bm(*site_events);
            if q0__.dom().contains(p__) { assert(wider(self.lines@, p__, inters(q0__, p__), inters(q1__, p__))); lemma_wider(self.lines@, q0__, p__, q1__); }
            else { lemma_meet(self.lines@, q0__, p__, intersecting_lines@, q1__); }
            lemma_kept_widen(q0__, p__, q1__);
        }""")])
    s.fn(RI, D, "find_new_events", rules=[r_continue],
         req="""queue(old(self).lines@, bm(*old(site_events)), vv(old(self).sweepline_pos), false), below(left@, old(self).lines@.len() as int), below(right@, old(self).lines@.len() as int)""",
         ens="""*final(self) == *old(self), r is Ok ==> queue(old(self).lines@, bm(*final(site_events)), vv(old(self).sweepline_pos), false),
            r is Ok ==> kept(bm(*old(site_events)), bm(*final(site_events))) && pairs(old(self).lines@, vv(old(self).sweepline_pos), left@, right@, bm(*final(site_events)))""",
         loops=[("for", """invariant *self == *old(self), queue(self.lines@, bm(*site_events), vv(self.sweepline_pos), false), below(left@, self.lines@.len() as int), below(right@, self.lines@.len() as int),
                    it0.seq().len() == left@.len(), kept(bm(*old(site_events)), bm(*site_events)), pairs(self.lines@, vv(self.sweepline_pos), left@.take(it0.index@ as int), right@, bm(*site_events))"""),
                ("for", """invariant *self == *old(self), queue(self.lines@, bm(*site_events), vv(self.sweepline_pos), false), *left_i < self.lines@.len(), below(right@, self.lines@.len() as int),
                    kept(bm(*old(site_events)), bm(*site_events)), pairs(self.lines@, vv(self.sweepline_pos), left0__, right@, bm(*site_events)),
                    pairs(self.lines@, vv(self.sweepline_pos), seq![*left_i], right@.take(it1.index@ as int), bm(*site_events))""")],
         hints=[("entry", "proof { lemma_kept0(bm(*site_events)); lemma_pairs0(self.lines@, vv(self.sweepline_pos), left@.take(0), right@, bm(*site_events)); }"),
                ("tail", "assert(left@.take(left@.len() as int) =~= left@);"),
                (("body_start", 0), "let ghost left0__ = left@.take(it0.index@ as int); assert(*left_i == left@[it0.index@ as int]); proof { lemma_pairs0(self.lines@, vv(self.sweepline_pos), seq![*left_i], right@.take(0), bm(*site_events)); }"),
                (("body_end", 0), """proof { assert(right@.take(right@.len() as int) =~= right@); lemma_pairs2(self.lines@, vv(self.sweepline_pos), left0__, *left_i, right@, bm(*site_events)); assert(left0__.push(*left_i) =~= left@.take(it0.index@ as int + 1)); }"""),
                (("body_start", 1), "broadcast use lemma_pick; let ghost qs__ = bm(*site_events); let ghost mut ri__: Option<Intersection<T>> = None; assert(*right_i == right@[it1.index@ as int]);"),
                (("before", "let intersection_p = intersection_p . single ( ) ;"), "proof { ri__ = Some(intersection_p); }"),
                (("after", "let intersection_p = intersection_p . single ( ) ;"), "let ghost p__ = vv(intersection_p); proof { lemma_spot_pick(self.lines@, *left_i as int, *right_i as int, ri__); } assert(on(left_l, p__) && on(right_l, p__));"),
                (("before", "self . add_intersection_event"), """let ghost q0__ = bm(*site_events);
                        proof {
                            assert(klt(vv(self.sweepline_pos), p__));
                            let ls__ = self.lines@; let at__ = vv(self.sweepline_pos); let (a__, b__) = (*left_i, *right_i);
                            if !q0__.dom().contains(p__) {
                                lemma_inner(ls__, q0__, at__, p__, a__ as int); lemma_inner(ls__, q0__, at__, p__, b__ as int);
                                lemma_two(seq![a__, b__], a__, b__);
                            }
                        }"""),
                (("body_end", 1), """proof {
                        let ls__ = self.lines@; let at__ = vv(self.sweepline_pos); let (a__, b__) = (*left_i, *right_i); let q1__ = bm(*site_events);
                        if q1__ == qs__ { lemma_kept0(qs__); }
                        lemma_kept1(bm(*old(site_events)), qs__, q1__);
                        lemma_pairs_kept(ls__, at__, left0__, right@, qs__, q1__);
                        lemma_pairs_kept(ls__, at__, seq![a__], right@.take(it1.index@ as int), qs__, q1__);
                        if vv(ls__[a__ as int].end) == vv(ls__[b__ as int].end) { lemma_pair_end(ls__, at__, a__, b__, q1__); }
                        else { lemma_pair_new(ls__, at__, a__, b__, ri__, q1__); }
                        lemma_pairs1(ls__, at__, a__, right@.take(it1.index@ as int), b__, q1__);
                        assert(right@.take(it1.index@ as int).push(b__) =~= right@.take(it1.index@ as int + 1));
                    }""")])
    s.fn(RI, D, "report_intersections_to_result", sig=lambda gen, params, rt, wh: ("", params.replace("intersecting_lines: I", "intersecting_lines: &[usize]"), rt, ""),
         rules=[SORT, VECDEF, sub_rule("item_list", r"for line in intersecting_lines\b", "for line in intersecting_lines.iter()")],
         ens="""*final(self) == *old(self), added(bm(*old(result)), vv(pos), intersecting_lines@, bm(*final(result)))""",
         loops=[("for", "invariant value@ =~= v0__ + intersecting_lines@.take(it0.index@ as int)")],
         hints=[(("before_loop", 0), "let ghost v0__ = value@; proof { lemma_cat(v0__, intersecting_lines@); if v0__.no_duplicates() && intersecting_lines@.no_duplicates() && (forall|x: usize| #[trigger] intersecting_lines@.contains(x) ==> !v0__.contains(x)) { lemma_cat_once(v0__, intersecting_lines@); } }"),
                (("after_loop", 0), "assert(intersecting_lines@.take(intersecting_lines@.len() as int) =~= intersecting_lines@);"),
                ("exit", "proof { assert(forall|x: usize| #[trigger] had(bm(*old(result)), vv(pos), x) <==> v0__.contains(x)); }")])
    L = "self.lines@"
    n = "old(self).lines@.len()"
    keep = "self.lines == old(self).lines"
    act = lambda a: "forall|x: usize| #[trigger] hs(*%s).contains(x) ==> x < %s" % (a, n)
    s.fn(RI, D, "handle_event", rules=[r_label_continue, COUNT, FOR, ARG, SET, SLICE],
         req="""queue(old(self).lines@, bm(*old(site_events)), vv(key.pos), false), all_proper(old(self).lines@), evt(old(self).lines@, vv(key.pos), *event),
            due(old(self).lines@, vv(key.pos), *event, hs(*old(active_lines)), bm(*old(site_events))), %s,
            reports(old(self).lines@, bm(*old(result)), old(self).ignore_end_point_intersections), !bm(*old(result)).dom().contains(vv(key.pos))""" % act("old(active_lines)"),
         ens="""final(self).lines == old(self).lines, final(self).ignore_end_point_intersections == old(self).ignore_end_point_intersections, final(self).stop_at_first_intersection == old(self).stop_at_first_intersection,
            final(self).sweepline_pos == key.pos, final(self).site_events == old(self).site_events,
            reports(old(self).lines@, bm(*final(result)), old(self).ignore_end_point_intersections),
            forall|p: V| #[trigger] bm(*final(result)).dom().contains(p) ==> p == vv(key.pos) || bm(*old(result)).dom().contains(p),
            rmore(bm(*old(result)), vv(key.pos), *event, bm(*final(result))),
            r is Ok ==> whole(old(self).lines@, bm(*final(site_events)), vv(key.pos), false, hs(*final(active_lines))),
            r is Ok ==> queue(old(self).lines@, bm(*final(site_events)), vv(key.pos), false), r is Ok ==> %s""" % act("final(active_lines)"),
         loops=handle_loops(L, act, keep, n), hints=handle_hints(L) + [(("before_loop", 1), """proof {
            let f__ = bm(*result); let ls__ = self.lines@;
            lemma_count(ls__, vv(key.pos), *event);
            lemma_rmore(r0__, vv(key.pos), *event, f__);
            if f__ != r0__ { lemma_report(ls__, vv(key.pos), *event, self.ignore_end_point_intersections, r0__, f__); }
        }""")])
    s.fn(RI, D, "compute", sig=lambda gen, params, rt, wh: (gen, params, "Result<Vec<(T, Vec<usize>)>, LinestringError>", wh),
         rules=[r_ok_or_else, sub_rule("item_list", r"Ok\(result\.into_iter\(\)\.map\(\|x\| \(x\.0\.pos, x\.1\)\)\)",
                                       "Ok({ let list__ = result.into_vec_(); let mut out__: Vec<(T, Vec<usize>)> = Vec::new(); for x in list__ { out__.push((x.0.pos, x.1)); } out__ })"),
                sub_rule("first", r"site_events\.iter\(\)\.next\(\)", "site_events.first_()"), TEXT],
         req="wf(self)",
         ens="""r is Ok ==> forall|i: int| 0 <= i < r->Ok_0@.len() ==> genuine(self.lines@, vv((#[trigger] r->Ok_0@[i]).0), r->Ok_0@[i].1@, self.ignore_end_point_intersections),
            r is Ok && r->Ok_0@.len() > 0 ==> some_report(self.lines@, self.ignore_end_point_intersections),
            r is Ok && self.stop_at_first_intersection ==> r->Ok_0@.len() <= 1,
            r is Ok && gp(sgs(self.lines@)) && some_cross(self.lines@) ==> r->Ok_0@.len() > 0,
            r is Ok && gp(sgs(self.lines@)) && !self.stop_at_first_intersection ==> forall|i: int, j: int, q: V| #[trigger] xing(sgs(self.lines@), i, j, q) ==>
                exists|n: int| 0 <= n < r->Ok_0@.len() && #[trigger] entry(vv(r->Ok_0@[n].0), r->Ok_0@[n].1@, i, j, q),
            r is Ok ==> forall|i: int, j: int| 0 <= i < j < r->Ok_0@.len() ==> klt(vv((#[trigger] r->Ok_0@[i]).0), vv((#[trigger] r->Ok_0@[j]).0))""",
         loops=[("loop", """invariant_except_break remain(self.lines@, left__, vv(me__.sweepline_pos), all__), all_proper(self.lines@), whole(self.lines@, bm(site_events), vv(me__.sweepline_pos), all__, hs(active_lines)), rfound(self.lines@, vv(me__.sweepline_pos), all__, bm(result)), queue(self.lines@, bm(site_events), vv(me__.sweepline_pos), all__), %s,
                me__.stop_at_first_intersection ==> bm(result).dom() =~= Set::<V>::empty(),
                forall|p: V| #[trigger] bm(result).dom().contains(p) ==> !all__ && !klt(vv(me__.sweepline_pos), p),
            invariant me__.lines == self.lines, me__.ignore_end_point_intersections == self.ignore_end_point_intersections, me__.stop_at_first_intersection == self.stop_at_first_intersection,
                reports(self.lines@, bm(result), self.ignore_end_point_intersections),
            ensures (self.stop_at_first_intersection && !(bm(result).dom() =~= Set::<V>::empty())) || complete(self.lines@, bm(result)),
                self.stop_at_first_intersection ==> forall|p: V, q: V| #[trigger] bm(result).dom().contains(p) && #[trigger] bm(result).dom().contains(q) ==> p == q,
            decreases left__.len()""" % "forall|x: usize| #[trigger] hs(active_lines).contains(x) ==> x < self.lines@.len()"),
                ("for", """invariant it1.seq() == list__@, out__@.len() == it1.index@, forall|i: int| 0 <= i < out__@.len() ==> (#[trigger] out__@[i]).0 == list__@[i].0.pos && out__@[i].1 == list__@[i].1""")],
         hints=[(("before_loop", 0), "let ghost mut all__ = true; let ghost mut left__ = Set::<V>::empty(); proof { left__ = lemma_spots(self.lines@); lemma_whole0(self.lines@, bm(site_events), vv(self.sweepline_pos)); lemma_found0(sgs(self.lines@), vv(self.sweepline_pos), rset(bm(result))); }"),
                (("body_start", 0), "let ghost q0__ = bm(site_events); let ghost (at0__, all0__, r0__, act0__) = (vv(me__.sweepline_pos), all__, bm(result), hs(active_lines));"),
                (("before", "me__ . sweepline_pos ="), "proof { lemma_complete(self.lines@, bm(site_events), at0__, all0__, act0__, bm(result)); }"),
                (("after", "me__ . handle_event ( ... ) ? ;"), "proof { lemma_rfound(self.lines@, q0__, at0__, all0__, vv(key.pos), event, act0__, q1__, r0__, bm(result)); }"),
                (("before", "me__ . handle_event"), "proof { lemma_front(self.lines@, q0__, vv(me__.sweepline_pos), all__, vv(key.pos)); lemma_remain(self.lines@, left__, q0__, at0__, all0__, vv(key.pos)); left__ = left__.remove(vv(key.pos)); all__ = false; } let ghost q1__ = bm(site_events); assert(due_at(self.lines@, q0__, at0__, all0__, vv(key.pos), event, act0__, q1__));"),
                ("wrap", "assert(r__ is Ok && r__->Ok_0@.len() > 0 ==> genuine(self.lines@, vv(r__->Ok_0@[0].0), r__->Ok_0@[0].1@, self.ignore_end_point_intersections));"),
                (("after_loop", 1), """proof {
                if gp(sgs(self.lines@)) {
                    if complete(self.lines@, bm(result)) {
                        assert forall|i: int, j: int, q: V| #[trigger] xing(sgs(self.lines@), i, j, q) implies exists|n: int| 0 <= n < out__@.len() && #[trigger] entry(vv(out__@[n].0), out__@[n].1@, i, j, q) by {
                            assert(had(bm(result), q, i as usize) && had(bm(result), q, j as usize));
                            let n = choose|n: int| 0 <= n < list__@.len() && (#[trigger] list__@[n]).0.kp() == q;
                            assert(bm(result)[q] == list__@[n]);
                            assert(entry(vv(out__@[n].0), out__@[n].1@, i, j, q));
                        }
                        if some_cross(self.lines@) { let (i, j, q) = choose|i: int, j: int, q: V| xing(sgs(self.lines@), i, j, q); assert(xing(sgs(self.lines@), i, j, q)); }
                    } else {
                        let p = choose|p: V| bm(result).dom().contains(p);
                        assert(bm(result).dom().contains(p));
                    }
                }
            }"""),
                (("after", "let list__ = result . into_vec_ ( ) ;"), "assert(self.stop_at_first_intersection && list__@.len() > 1 ==> klt(list__@[0].0.kp(), list__@[1].0.kp()));")])


def spec(repo):
    s = Spec("L05", repo)
    parts(s)
    return s
