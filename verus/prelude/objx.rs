// TRUSTED: text, files and the std map with text keys, as far as OBJ rows go.
// What a row of an OBJ file says; Rust writes a float with {}, {:?}, {:e} or {:+e} in the shortest form that reads
// back as the same number.
pub enum Row { Object, Vertex(real, real, real), Line(int, int), Other }
#[verifier::external_body]
pub struct Text { s: String }
impl View for Text { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
pub uninterp spec fn row_of(t: Seq<char>) -> Row;
/// the text "v x y z"
pub uninterp spec fn vtext(x: real, y: real, z: real) -> Seq<char>;
pub axiom fn ax_vtext(x: real, y: real, z: real) ensures row_of(vtext(x, y, z)) == Row::Vertex(x, y, z);
#[verifier::external_body]
pub fn vertex_text<S: GenericScalar>(x: S, y: S, z: S) -> (r: Text) ensures r@ == vtext(rv(x), rv(y), rv(z)) { unimplemented!() }
/// the text k, perhaps with a comment behind it
#[verifier::external_body]
pub fn plain_text(k: &Text) -> (r: Text) ensures row_of(r@) == row_of(k@) { unimplemented!() }
#[verifier::external_body]
pub fn object_text(name: &str) -> (r: Text) requires one_line(name) ensures row_of(r@) == Row::Object { unimplemented!() }
pub uninterp spec fn one_line(name: &str) -> bool;
pub trait Number { spec fn num(&self) -> int; }
impl Number for usize { open spec fn num(&self) -> int { *self as int } }
impl Number for &usize { open spec fn num(&self) -> int { **self as int } }
#[verifier::external_body]
pub fn line_text<A: Number, B: Number>(p: A, q: B) -> (r: Text) ensures row_of(r@) == Row::Line(p.num(), q.num()) { unimplemented!() }
#[verifier::external_body]
pub fn other_text() -> (r: Text) { unimplemented!() }

/// HashMap<String, usize>
#[verifier::external_body]
pub struct TextMap { m: std::collections::HashMap<String, usize> }
impl View for TextMap { type V = Map<Seq<char>, usize>; uninterp spec fn view(&self) -> Map<Seq<char>, usize>; }
pub open spec fn num_order(a: usize, b: usize) -> core::cmp::Ordering {
    if a < b { core::cmp::Ordering::Less } else if a > b { core::cmp::Ordering::Greater } else { core::cmp::Ordering::Equal }
}
/// s lists the items of m, each once
pub open spec fn items_of(s: Seq<(&Text, &usize)>, m: Map<Seq<char>, usize>) -> bool {
    &&& s.len() == m.len()
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0@) && m[s[i].0@] == *s[i].1
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0@ != (#[trigger] s[j]).0@
}
impl TextMap {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, usize>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    /// entry(k).or_insert(v)
    #[verifier::external_body]
    pub fn entry_or_insert_(&mut self, k: Text, v: usize) -> (r: &mut usize)
        ensures *r == (if old(self)@.dom().contains(k@) { old(self)@[k@] } else { v }), final(self)@ == old(self)@.insert(k@, *final(r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &Text) -> (r: Option<&usize>)
        ensures r is Some == self@.dom().contains(k@), r is Some ==> *(r->0) == self@[k@] { unimplemented!() }
    /// iter().sorted_unstable_by(f)
    #[verifier::external_body]
    pub fn sorted_by_<'a, F: Fn(&(&'a Text, &'a usize), &(&'a Text, &'a usize)) -> core::cmp::Ordering>(&'a self, f: F) -> (r: Vec<(&'a Text, &'a usize)>)
        requires forall|a: &(&'a Text, &'a usize), b: &(&'a Text, &'a usize)| #[trigger] f.requires((a, b)),
            forall|a: &(&'a Text, &'a usize), b: &(&'a Text, &'a usize), o: core::cmp::Ordering| #[trigger] f.ensures((a, b), o) ==> o == num_order(*a.1, *b.1),
        ensures items_of(r@, self@), forall|i: int, j: int| 0 <= i < j < r@.len() ==> *(#[trigger] r@[i]).1 <= *(#[trigger] r@[j]).1 { unimplemented!() }
    /// iter()
    #[verifier::external_body]
    pub fn iter<'a>(&'a self) -> (r: Vec<(&'a Text, &'a usize)>) ensures items_of(r@, self@) { unimplemented!() }
}

/// the file (buffered) and what was written to it so far
#[verifier::external_body]
pub struct ObjFile { f: std::io::BufWriter<std::fs::File> }
impl View for ObjFile { type V = Seq<Row>; uninterp spec fn view(&self) -> Seq<Row>; }
#[verifier::external_body]
pub struct FileName { n: std::path::PathBuf }
pub uninterp spec fn names(f: ObjFile, n: FileName) -> bool;
/// the file n was left with these rows
pub uninterp spec fn saved(n: FileName, rows: Seq<Row>) -> bool;
/// no operation on the file system fails
pub uninterp spec fn io_works() -> bool;
#[verifier::external_body]
pub fn create_(filename: FileName) -> (r: Result<ObjFile, LinestringError>)
    ensures io_works() ==> r is Ok, r is Ok ==> (r->Ok_0)@ == Seq::<Row>::empty() && names(r->Ok_0, filename) { unimplemented!() }
impl ObjFile {
    #[verifier::external_body]
    pub fn row_(&mut self, t: Text) -> (r: Result<(), LinestringError>)
        ensures io_works() ==> r is Ok, final(self)@ == old(self)@.push(row_of(t@)), forall|n: FileName| #[trigger] names(*old(self), n) ==> names(*final(self), n) { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: Result<(), LinestringError>)
        ensures io_works() ==> r is Ok, final(self)@ == old(self)@, forall|n: FileName| #[trigger] names(*old(self), n) ==> names(*final(self), n),
            r is Ok ==> forall|n: FileName| #[trigger] names(*old(self), n) ==> saved(n, old(self)@) { unimplemented!() }
}
