import re
from vgen import Spec, sub_rule, lex, match_close

R3 = "src/linestring_3d.rs"
EXACT = ("", "?", "e", "+e", "+", "+?")   # the shortest text that reads back as the same number


def split_args(t, i, c, src):
    """the comma separated arguments between the brackets t[i] and t[c]"""
    out, d, a = [], 0, i + 1
    for k in range(i + 1, c):
        if t[k].s in "([{":
            d += 1
        elif t[k].s in ")]}":
            d -= 1
        elif t[k].s == "," and d == 0:
            out.append(src[t[a].a:t[k - 1].b]); a = k + 1
    if a < c:
        out.append(src[t[a].a:t[c - 1].b])
    return out


def row_text(args):
    """the prelude function of the row a format string spells"""
    m = re.fullmatch(r'"((?:[^"\\]|\\.)*)"', args[0].strip())
    if not m:
        return "other_text()"
    vals, specs, it = [], [], iter(args[1:])
    for name, sp in re.findall(r"\{(\w*)(?::([^}]*))?\}", m.group(1)):
        if name.isdigit():
            return "other_text()"
        vals.append(name or next(it, "?"))
        specs.append(sp)
    if "?" in vals:
        return "other_text()"
    shape = re.sub(r"\{[^}]*\}", "{}", m.group(1))
    if shape == "v {} {} {}" and all(s in EXACT for s in specs):
        return f"vertex_text({', '.join(vals)})"
    if shape == "o {}" and specs == [""]:
        return f"object_text({vals[0]})"
    if shape == "l {} {}" and specs == ["", ""]:
        return f"line_text({', '.join(vals)})"
    if re.fullmatch(r"\{\}( *#.*)?", shape) and specs[0] == "" and "\\n" not in shape:
        rest = "".join(f"let _ = {v}; " for v in vals[1:])
        return f"{{ {rest}plain_text({vals[0]}) }}" if rest else f"plain_text({vals[0]})"
    return "other_text()"


def r_rows(src, used):
    """format!(F, ..) / writeln!(w, F, ..) -> the prelude function of the OBJ row that F spells / w.row_(that row)"""
    while True:
        t = lex(src)
        for i in range(len(t) - 2):
            if t[i].s in ("format", "writeln") and t[i + 1].s == "!":
                c = match_close(t, i + 2)
                args = split_args(t, i + 2, c, src)
                if t[i].s == "format":
                    if i > 2 and t[i - 1].s == "(" and t[i - 3].s == "::" and t[i - 4].s == "LinestringError":
                        continue   # the text of an error
                    new = row_text(args)
                else:
                    new = f"{args[0].strip()}.row_({row_text(args[1:])})"
                src = src[:t[i].a] + new + src[t[c].b:]
                used["text"] = used.get("text", 0) + 1
                break
        else:
            return src


GHOST = """
pub open spec fn vt<T: GenericVector3>(p: T) -> Seq<char> { vtext(rx(p), ry(p), rz(p)) }
pub open spec fn vrow<T: GenericVector3>(p: T) -> Row { Row::Vertex(rx(p), ry(p), rz(p)) }
/// all lines, group by group
pub open spec fn flat<T: GenericVector3>(s: Seq<Vec<Line3<T>>>) -> Seq<Line3<T>> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + s.last()@ }
}
/// k is the text of an end of one of these lines
pub open spec fn an_end<T: GenericVector3>(l: Seq<Line3<T>>, k: Seq<char>) -> bool {
    exists|m: int| 0 <= m < l.len() && (k == vt((#[trigger] l[m]).start) || k == vt(l[m].end))
}
/// m numbers texts of ends of the lines l from 0 on
pub open spec fn numbering<T: GenericVector3>(m: Map<Seq<char>, usize>, l: Seq<Line3<T>>) -> bool {
    &&& forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> m[k] < m.len() && an_end(l, k)
    &&& forall|j: Seq<char>, k: Seq<char>| #[trigger] m.dom().contains(j) && #[trigger] m.dom().contains(k) && j != k ==> m[j] != m[k]
}
/// all of them
pub open spec fn numbered<T: GenericVector3>(m: Map<Seq<char>, usize>, l: Seq<Line3<T>>) -> bool {
    numbering(m, l) && forall|i: int| 0 <= i < l.len() ==> m.dom().contains(vt((#[trigger] l[i]).start)) && m.dom().contains(vt(l[i].end))
}
/// k has the next number unless it has one
pub open spec fn step(m: Map<Seq<char>, usize>, k: Seq<char>) -> Map<Seq<char>, usize> {
    m.insert(k, if m.dom().contains(k) { m[k] } else { m.len() as usize })
}
/// n vertices, all different, in the rows 1 to n
pub open spec fn vertices(rows: Seq<Row>, n: int) -> bool {
    &&& 0 <= n < rows.len() && rows[0] == Row::Object
    &&& forall|i: int| 1 <= i <= n ==> #[trigger] rows[i] is Vertex
    &&& forall|i: int, j: int| 1 <= i < j <= n ==> #[trigger] rows[i] != #[trigger] rows[j]
}
/// the row r is the line from a to b by the numbers of their vertices
pub open spec fn joins<T: GenericVector3>(rows: Seq<Row>, n: int, r: Row, l: Line3<T>) -> bool {
    match r { Row::Line(p, q) => 1 <= p <= n && 1 <= q <= n && rows[p] == vrow(l.start) && rows[q] == vrow(l.end), _ => false }
}
pub open spec fn used_row<T: GenericVector3>(l: Seq<Line3<T>>, r: Row) -> bool {
    exists|m: int| 0 <= m < l.len() && (r == vrow((#[trigger] l[m]).start) || r == vrow(l[m].end))
}
/// an object, its vertices (the ends of the lines, each once), then every line in order
pub open spec fn describes<T: GenericVector3>(rows: Seq<Row>, l: Seq<Line3<T>>) -> bool {
    exists|n: int| #[trigger] vertices(rows, n) && rows.len() == 1 + n + l.len()
        && (forall|i: int| 1 <= i <= n ==> used_row(l, #[trigger] rows[i]))
        && (forall|m: int| 0 <= m < l.len() ==> joins(rows, n, rows[1 + n + m], #[trigger] l[m]))
}
pub open spec fn done<T: GenericVector3>(lines: Seq<Vec<Line3<T>>>, a: int, b: int) -> Seq<Line3<T>> {
    flat(lines.take(a)) + (if a < lines.len() { lines[a]@.take(b) } else { Seq::empty() })
}
pub proof fn lemma_next<T: GenericVector3>(lines: Seq<Vec<Line3<T>>>, a: int, b: int)
    requires 0 <= a < lines.len(), 0 <= b <= lines[a]@.len(),
    ensures done(lines, a, 0) =~= flat(lines.take(a)), b < lines[a]@.len() ==> done(lines, a, b + 1) == done(lines, a, b).push(lines[a]@[b]),
        done(lines, a, lines[a]@.len() as int) == flat(lines.take(a + 1)),
{
    assert(lines.take(a + 1).drop_last() =~= lines.take(a));
    assert(lines[a]@.take(lines[a]@.len() as int) =~= lines[a]@);
    if b < lines[a]@.len() { assert(lines[a]@.take(b + 1) =~= lines[a]@.take(b).push(lines[a]@[b])); assert(done(lines, a, b + 1) =~= done(lines, a, b).push(lines[a]@[b])); }
}
pub proof fn lemma_step<T: GenericVector3>(m: Map<Seq<char>, usize>, l: Seq<Line3<T>>, k: Seq<char>)
    requires numbering(m, l), m.len() <= usize::MAX, an_end(l, k),
    ensures numbering(step(m, k), l), step(m, k).dom() == m.dom().insert(k),
{ assert(step(m, k).dom() =~= m.dom().insert(k)); }
pub proof fn lemma_both<T: GenericVector3>(m: Map<Seq<char>, usize>, l: Seq<Line3<T>>, x: Line3<T>, j: Seq<char>, k: Seq<char>)
    requires numbered(m, l), step(m, j).len() <= usize::MAX, j == vt(x.start) && k == vt(x.end) || k == vt(x.start) && j == vt(x.end),
    ensures numbered(step(step(m, j), k), l.push(x)),
{
    let t = l.push(x);
    assert forall|k: Seq<char>| an_end(l, k) implies an_end(t, k) by { let i = choose|i: int| 0 <= i < l.len() && (k == vt((#[trigger] l[i]).start) || k == vt(l[i].end)); assert(t[i] == l[i]); }
    assert(t[l.len() as int] == x);
    assert(an_end(t, j) && an_end(t, k));
    assert(m.len() <= step(m, j).len()) by { assert(step(m, j).dom() =~= m.dom().insert(j)); }
    lemma_step(m, t, j); lemma_step(step(m, j), t, k);
    assert forall|i: int| 0 <= i < t.len() implies step(step(m, j), k).dom().contains(vt((#[trigger] t[i]).start)) && step(step(m, j), k).dom().contains(vt(t[i].end)) by { if i < l.len() { assert(t[i] == l[i]); } }
}
pub proof fn lemma_low(s: Seq<(&Text, &usize)>, i: int)
    requires 0 <= i < s.len(), forall|a: int, b: int| 0 <= a < b < s.len() ==> *(#[trigger] s[a]).1 < *(#[trigger] s[b]).1
    ensures *s[i].1 >= i
    decreases i
{ if i > 0 { lemma_low(s, i - 1); assert(*s[i - 1].1 < *s[i].1); } }
pub proof fn lemma_high(s: Seq<(&Text, &usize)>, i: int)
    requires 0 <= i < s.len(), forall|a: int, b: int| 0 <= a < b < s.len() ==> *(#[trigger] s[a]).1 < *(#[trigger] s[b]).1, *s.last().1 < s.len()
    ensures *s[i].1 <= i
    decreases s.len() - i
{ if i < s.len() - 1 { lemma_high(s, i + 1); assert(*s[i].1 < *s[i + 1].1); } }
/// the lines up to there are the first of all
pub proof fn lemma_part<T: GenericVector3>(lines: Seq<Vec<Line3<T>>>, a: int)
    requires 0 <= a <= lines.len(),
    ensures flat(lines.take(a)).len() <= flat(lines).len(), flat(lines).take(flat(lines.take(a)).len() as int) == flat(lines.take(a)),
    decreases lines.len(),
{
    if a < lines.len() {
        lemma_part(lines.drop_last(), a);
        assert(lines.drop_last().take(a) =~= lines.take(a));
        let n = flat(lines.take(a)).len() as int;
        assert(flat(lines).take(n) =~= flat(lines.drop_last()).take(n));
    } else { assert(lines.take(a) =~= lines); assert(flat(lines).take(flat(lines).len() as int) =~= flat(lines)); }
}
pub proof fn lemma_within<T: GenericVector3>(lines: Seq<Vec<Line3<T>>>, a: int, b: int)
    requires 0 <= a < lines.len(), 0 <= b < lines[a]@.len(),
    ensures done(lines, a, b).len() < flat(lines).len(), flat(lines)[done(lines, a, b).len() as int] == lines[a]@[b],
{
    lemma_next(lines, a, b);
    lemma_part(lines, a + 1);
    assert(lines.take(a + 1).drop_last() =~= lines.take(a));
    let f = flat(lines.take(a + 1));
    assert(f == flat(lines.take(a)) + lines[a]@);
    assert(flat(lines).take(f.len() as int)[done(lines, a, b).len() as int] == f[done(lines, a, b).len() as int]);
}
/// sorted by number, the item at i is the one of number i
pub proof fn lemma_sorted<T: GenericVector3>(s: Seq<(&Text, &usize)>, m: Map<Seq<char>, usize>, l: Seq<Line3<T>>)
    requires items_of(s, m), numbered(m, l), forall|i: int, j: int| 0 <= i < j < s.len() ==> *(#[trigger] s[i]).1 <= *(#[trigger] s[j]).1,
    ensures forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]).1 == i,
{
    assert forall|a: int, b: int| 0 <= a < b < s.len() implies *(#[trigger] s[a]).1 < *(#[trigger] s[b]).1 by { assert(s[a].0@ != s[b].0@); }
    assert forall|i: int| 0 <= i < s.len() implies *(#[trigger] s[i]).1 == i by { assert(m.dom().contains(s.last().0@)); lemma_low(s, i); lemma_high(s, i); }
}
/// every key is among the items
pub proof fn lemma_all(s: Seq<(&Text, &usize)>, m: Map<Seq<char>, usize>, k: Seq<char>) -> (i: int)
    requires items_of(s, m), m.dom().contains(k),
    ensures 0 <= i < s.len(), s[i].0@ == k,
{
    let f = Seq::new(s.len(), |i: int| s[i].0@);
    assert(f.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < f.len() && 0 <= j < f.len() && i != j implies f[i] != f[j] by { if i < j { assert(s[i].0@ != s[j].0@); } else { assert(s[j].0@ != s[i].0@); } } }
    f.unique_seq_to_set();
    assert(f.to_set().subset_of(m.dom())) by { assert forall|x: Seq<char>| f.to_set().contains(x) implies m.dom().contains(x) by { let i = choose|i: int| 0 <= i < f.len() && f[i] == x; assert(m.dom().contains(s[i].0@)); } }
    vstd::set_lib::lemma_subset_equality(f.to_set(), m.dom());
    assert(f.to_set().contains(k));
    choose|i: int| 0 <= i < f.len() && f[i] == k
}
/// after the vertices come these lines
pub open spec fn written<T: GenericVector3>(rows: Seq<Row>, m: Map<Seq<char>, usize>, l: Seq<Line3<T>>) -> bool {
    rows.len() == 1 + m.len() + l.len() && forall|i: int| 0 <= i < l.len() ==> rows[1 + m.len() + i] == Row::Line(m[vt((#[trigger] l[i]).start)] + 1, m[vt(l[i].end)] + 1)
}
pub open spec fn row_key(rows: Seq<Row>, m: Map<Seq<char>, usize>, r: Row, i: int) -> bool {
    exists|k: Seq<char>| #[trigger] m.dom().contains(k) && m[k] == i - 1 && r == row_of(k)
}
/// rows 1 to n are the numbered points
pub open spec fn listed(rows: Seq<Row>, m: Map<Seq<char>, usize>) -> bool {
    &&& rows.len() >= 1 + m.len() && rows[0] == Row::Object
    &&& forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> rows[1 + m[k]] == row_of(k)
    &&& forall|i: int| 1 <= i <= m.len() ==> row_key(rows, m, #[trigger] rows[i], i)
}
pub proof fn lemma_row<T: GenericVector3>(l: Seq<Line3<T>>, k: Seq<char>)
    requires an_end(l, k),
    ensures row_of(k) is Vertex, used_row(l, row_of(k)), k == (match row_of(k) { Row::Vertex(x, y, z) => vtext(x, y, z), _ => k }),
{
    let i = choose|i: int| 0 <= i < l.len() && (k == vt((#[trigger] l[i]).start) || k == vt(l[i].end));
    ax_vtext(rx(l[i].start), ry(l[i].start), rz(l[i].start)); ax_vtext(rx(l[i].end), ry(l[i].end), rz(l[i].end));
}
pub proof fn lemma_listed<T: GenericVector3>(rows: Seq<Row>, s: Seq<(&Text, &usize)>, m: Map<Seq<char>, usize>, l: Seq<Line3<T>>)
    requires items_of(s, m), numbered(m, l), forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]).1 == i,
        rows.len() == 1 + s.len(), rows[0] == Row::Object, forall|i: int| 0 <= i < s.len() ==> rows[1 + i] == row_of((#[trigger] s[i]).0@),
    ensures listed(rows, m),
{
    assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) implies rows[1 + m[k]] == row_of(k) by { let i = lemma_all(s, m, k); assert(*s[i].1 == i); }
    assert forall|i: int| 1 <= i <= m.len() implies row_key(rows, m, #[trigger] rows[i], i) by {
        assert(m.dom().contains(s[i - 1].0@) && m[s[i - 1].0@] == i - 1);
    }
}
pub proof fn lemma_done<T: GenericVector3>(rows: Seq<Row>, m: Map<Seq<char>, usize>, l: Seq<Line3<T>>)
    requires listed(rows, m), numbered(m, l), written(rows, m, l),
    ensures describes(rows, l),
{
    let n = m.len() as int;
    assert forall|i: int| 1 <= i <= n implies #[trigger] rows[i] is Vertex && used_row(l, rows[i]) by {
        let k = choose|k: Seq<char>| #[trigger] m.dom().contains(k) && m[k] == i - 1 && rows[i] == row_of(k); lemma_row(l, k);
    }
    assert forall|i: int, j: int| 1 <= i < j <= n implies #[trigger] rows[i] != #[trigger] rows[j] by {
        let k = choose|k: Seq<char>| #[trigger] m.dom().contains(k) && m[k] == i - 1 && rows[i] == row_of(k); lemma_row(l, k);
        let h = choose|k: Seq<char>| #[trigger] m.dom().contains(k) && m[k] == j - 1 && rows[j] == row_of(k); lemma_row(l, h);
    }
    assert forall|i: int| 0 <= i < l.len() implies joins(rows, n, rows[1 + n + i], #[trigger] l[i]) by {
        ax_vtext(rx(l[i].start), ry(l[i].start), rz(l[i].start)); ax_vtext(rx(l[i].end), ry(l[i].end), rz(l[i].end));
        assert(m.dom().contains(vt(l[i].start)) && m.dom().contains(vt(l[i].end)));
    }
    assert(vertices(rows, n));
}
"""


def spec(repo):
    s = Spec("L20", repo)
    s.prelude("vec")
    s.broadcast("scal")
    s.raw("pub struct IoErr {}\n")
    s.use("core::cmp::Ordering")
    s.type("src/lib.rs", "LinestringError", rules=[sub_rule("io_error", r"std::io::Error", "IoErr")])
    s.type(R3, "Line3", prefix="#[derive(Clone, Copy)]\n")
    objx = open(__file__.rsplit("/", 2)[0] + "/prelude/objx.rs").read()
    s.raw(objx)
    s.raw("pub fn stub_string() -> (r: String) { String::new() }\n")
    s.ghost(GHOST)
    s.assumptions.append(f"verus/prelude/objx.rs: trusted contracts ({objx.count('external_body)]') + objx.count('axiom fn')} assumed declarations)")
    s.assumptions.append("L20: text, the file and the map with text keys are trusted types (prelude objx.rs): a float is written so that it reads "
                         "back as the same number, a row is what its format string spells, no operation but those of the function changes the file")
    CL = "|a: &(&Text, &usize), b: &(&Text, &usize)| -> (o: Ordering) ensures o == num_order(*a.1, *b.1) {"
    rules = [sub_rule("map", r"collections::HashMap::<String, usize>::new\(\)|HashMap::<String, usize>::new\(\)", "TextMap::new()"),
             sub_rule("entry", r"\.entry\((\w+)\)\s*\.or_insert\((\w+)\)", r".entry_or_insert_(\1, \2)"),
             sub_rule("create", r"io::BufWriter::new\(fs::File::create\(filename\)\?\)", "create_(filename)?"),
             sub_rule("sorted", r"\.iter\(\)\s*\.sorted(?:_unstable)?_by\(\|a, b\|\s*((?:[^()]|\([^()]*\))*)\)", rf".sorted_by_({CL} \1 }})"),
             sub_rule("tuple_pat", r"for\s*\((\w+),\s*(\w+)\)\s+in\s+(point_set[^{]*(?:\{[^{}]*\}[^{]*)?)\{", r"let s__ = \3; for kv__ in s__ { let (\1, \2) = kv__; ")]
    n3 = "nums.len() <= usize::MAX, numbered(nums, fl)"
    s.fn(R3, None, "save_to_obj_file", pre=[r_rows], rules=rules,
         sig=lambda g, p, rt, w: (g, p.replace("impl AsRef<Path>", "FileName"), rt, w),
         req="one_line(object_name)",
         ens="r is Ok ==> exists|rows: Seq<Row>| saved(filename, rows) && #[trigger] describes(rows, flat(lines@)), io_works() ==> r is Ok",
         loops=[("for", """invariant it0.seq().len() == lines@.len(), forall|a: int| 0 <= a < lines@.len() ==> *(#[trigger] it0.seq()[a]) == lines@[a],
                   numbered(point_set@, flat(lines@.take(it0.index@ as int)))"""),
                ("for", """invariant 0 <= a < lines@.len(), *i == lines@[a], it1.seq().len() == i@.len(), forall|b: int| 0 <= b < i@.len() ==> *(#[trigger] it1.seq()[b]) == i@[b],
                   numbered(point_set@, done(lines@, a, it1.index@ as int))"""),
                ("for", """invariant it2.seq() == items, items_of(items, point_set@), forall|a: int| 0 <= a < items.len() ==> *(#[trigger] items[a]).1 == a, names(file, fname), items.len() <= usize::MAX,
                   file@.len() == 1 + it2.index@, file@[0] == Row::Object, forall|a: int| 0 <= a < it2.index@ ==> file@[1 + a] == row_of((#[trigger] items[a]).0@)"""),
                ("for", f"""invariant it3.seq().len() == lines@.len(), forall|a: int| 0 <= a < lines@.len() ==> *(#[trigger] it3.seq()[a]) == lines@[a], point_set@ == nums, {n3}, fl == flat(lines@),
                   names(file, fname), listed(file@, nums), written(file@, nums, flat(lines@.take(it3.index@ as int)))"""),
                ("for", f"""invariant 0 <= c < lines@.len(), *i == lines@[c], it4.seq().len() == i@.len(), forall|b: int| 0 <= b < i@.len() ==> *(#[trigger] it4.seq()[b]) == i@[b], point_set@ == nums, {n3}, fl == flat(lines@),
                   names(file, fname), listed(file@, nums), written(file@, nums, done(lines@, c, it4.index@ as int))"""),
                ],
         hints=[("entry", "let ghost fname = filename; assert(flat(lines@.take(0)) =~= Seq::<Line3<T>>::empty());"),
                (("body_start", 0), "let ghost a = it0.index@ as int; proof { lemma_next(lines@, a, 0); }"),
                (("body_start", 1), "let ghost b = it1.index@ as int; let ghost m0 = point_set@; let ghost l0 = done(lines@, a, b); let ghost x = i@[b]; proof { lemma_next(lines@, a, b); }"),
                (("body_end", 1), """proof { let (j, k) = (vt(x.start), vt(x.end));
                    assert(point_set@ == step(step(m0, j), k) || point_set@ == step(step(m0, k), j));
                    if point_set@ == step(step(m0, j), k) { lemma_both(m0, l0, x, j, k); } else { lemma_both(m0, l0, x, k, j); } }"""),
                (("after_loop", 1), "proof { lemma_next(lines@, a, 0); }"),
                (("after_loop", 0), "let ghost nums = point_set@; let ghost fl = flat(lines@); proof { assert(lines@.take(lines@.len() as int) =~= lines@); }"),
                (("before_loop", 2), "let ghost items = s__@; proof { assert(vstd::std_specs::vec::spec_vec_len(&s__) == s__@.len()); lemma_sorted(items, nums, fl); }"),
                (("after_loop", 2), "proof { lemma_listed(file@, items, nums, fl); assert(flat(lines@.take(0)) =~= Seq::<Line3<T>>::empty()); }"),
                (("body_start", 3), "let ghost c = it3.index@ as int; proof { lemma_next(lines@, c, 0); }"),
                (("body_start", 4), "let ghost d = it4.index@ as int; let ghost f0 = file@; proof { lemma_next(lines@, c, d); lemma_within(lines@, c, d); }"),
                (("after_loop", 4), "proof { lemma_next(lines@, c, 0); }"),
                (("after_loop", 3), "proof { assert(lines@.take(lines@.len() as int) =~= lines@); lemma_done(file@, nums, fl); }"),
                ("tail", "assert(saved(fname, file@));"),   # nothing was written after the last flush
                ])
    return s
