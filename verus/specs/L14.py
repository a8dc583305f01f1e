from vgen import Spec

R2, R3 = "src/linestring_2d.rs", "src/linestring_3d.rs"

GHOST = """
/// p3 is the point of the axis plane whose other two components are those of p2
pub open spec fn lifted<A, B>(pl: Plane, p2: A, p3: B) -> bool {
    match pl {
        Plane::XY => rx(p3) == rx(p2) && ry(p3) == ry(p2) && rz(p3) == 0real,
        Plane::XZ => rx(p3) == rx(p2) && ry(p3) == 0real && rz(p3) == ry(p2),
        Plane::YZ => rx(p3) == 0real && ry(p3) == rx(p2) && rz(p3) == ry(p2),
    }
}
pub open spec fn dropped<A, B>(pl: Plane, p3: B, p2: A) -> bool {
    match pl {
        Plane::XY => rx(p2) == rx(p3) && ry(p2) == ry(p3),
        Plane::XZ => rx(p2) == rx(p3) && ry(p2) == rz(p3),
        Plane::YZ => rx(p2) == ry(p3) && ry(p2) == rz(p3),
    }
}
/// the polyline versions keep y in place: YZ maps (x, y) to (0, y, x)
pub open spec fn lifted_ls<A, B>(pl: Plane, p2: A, p3: B) -> bool {
    match pl {
        Plane::YZ => rx(p3) == 0real && ry(p3) == ry(p2) && rz(p3) == rx(p2),
        _ => lifted(pl, p2, p3),
    }
}
pub open spec fn dropped_ls<A, B>(pl: Plane, p3: B, p2: A) -> bool {
    match pl {
        Plane::YZ => rx(p2) == rz(p3) && ry(p2) == ry(p3),
        _ => dropped(pl, p3, p2),
    }
}
pub open spec fn in_plane<B>(pl: Plane, p3: B) -> bool {
    match pl { Plane::XY => rz(p3) == 0real, Plane::XZ => ry(p3) == 0real, Plane::YZ => rx(p3) == 0real }
}
pub proof fn lemma_round_trip<A, B>(pl: Plane, a: A, b: B, c: A)
    requires lifted(pl, a, b), dropped(pl, b, c),
    ensures rx(a) == rx(c), ry(a) == ry(c), in_plane(pl, b),
{ }
pub proof fn lemma_round_trip_ls<A, B>(pl: Plane, a: Seq<A>, b: Seq<B>, c: Seq<A>)
    requires
        a.len() == b.len(), b.len() == c.len(),
        forall|i: int| 0 <= i < a.len() ==> lifted_ls(pl, #[trigger] a[i], b[i]),
        forall|i: int| 0 <= i < b.len() ==> dropped_ls(pl, #[trigger] b[i], c[i]),
    ensures
        forall|i: int| 0 <= i < a.len() ==> rx(#[trigger] a[i]) == rx(c[i]) && ry(a[i]) == ry(c[i]) && in_plane(pl, b[i]),
{
    assert forall|i: int| 0 <= i < a.len() implies rx(#[trigger] a[i]) == rx(c[i]) && ry(a[i]) == ry(c[i]) && in_plane(pl, b[i]) by {
        assert(lifted_ls(pl, a[i], b[i])); assert(dropped_ls(pl, b[i], c[i]));
    }
}
/// ASSUMED about machine floats: 0/0 is NaN, which is not (approximately) equal to zero
pub axiom fn ax_zero_over_zero<S: GenericScalar>()
    ensures forall|a: S, b: S| rv(a) == 0real && rv(b) == 0real ==> rv(#[trigger] <S as DivSpec>::div_spec(a, b)) != 0real;
pub proof fn lemma_ratio<S: GenericScalar>(d: S, m: S)
    requires rv(m) != 0real
    ensures rv(<S as DivSpec>::div_spec(d, m)) == 0real <==> rv(d) == 0real
{
    ax_div(d, m);
    let (a, b) = (rv(d), rv(m));
    if a == 0real { assert(a / b == 0real) by(nonlinear_arith) requires a == 0real, b != 0real; }
    else { assert(a / b != 0real) by(nonlinear_arith) requires a != 0real, b != 0real; }
}
"""


def spec(repo):
    s = Spec("L14", repo)
    s.prelude("vec")
    s.broadcast("scal", "vec2", "vec3")
    s.assumptions.append("L14: 0.0 / 0.0 is not ulps_eq to 0.0 (NaN), used for boxes that are a single point")
    s.type(R3, "Plane", prefix="#[derive(Clone, Copy)]\n")
    s.type(R3, "Aabb3", prefix="#[derive(Clone, Copy)]\n")
    s.type(R2, "Line2", prefix="#[derive(Clone, Copy)]\n")
    s.type(R3, "Line3", prefix="#[derive(Clone, Copy)]\n")
    s.ghost(GHOST)
    s.fn(R2, "Line2", "new", ens="r.start == start, r.end == end")
    s.fn(R3, "Line3", "new", ens="r.start == start, r.end == end")
    s.fn(R3, "Plane", "point_to_3d", ens="lifted(*self, point, r), in_plane(*self, r)")
    s.fn(R3, "Plane", "point_to_2d", ens="dropped(*self, point, r)")
    # `use_sites` needs T::Vector2 to be a GenericVector2 in the model of the traits (see vec.rs)
    wh = lambda g, p, r, w: (g, p, r, "where T::Vector2: GenericVector2<Scalar = T::Scalar, Vector3 = T>")
    s.fn(R3, "Line3", "copy_to_2d", ens="dropped(plane, self.start, r.start), dropped(plane, self.end, r.end)", sig=wh,
         rules=[])
    s.fn(R2, "Line2", "copy_to_3d", ens="lifted(plane, self.start, r.start), lifted(plane, self.end, r.end)", rules=[])
    mm = "self.min_max"
    s.fn(R3, "Aabb3", "get_high", ens=f"{mm} is None ==> r is None, {mm} is Some ==> r == Some(({mm}->0).1)")
    s.fn(R3, "Aabb3", "get_low", ens=f"{mm} is None ==> r is None, {mm} is Some ==> r == Some(({mm}->0).0)")
    flat = lambda k: f"{k}((aabb.min_max->0).0) == {k}((aabb.min_max->0).1)"
    req = "aabb.min_max is Some ==> " + " && ".join(f"{k}((aabb.min_max->0).0) <= {k}((aabb.min_max->0).1)" for k in ("rx", "ry", "rz"))
    ens = f"""r is Some ==> aabb.min_max is Some,
        r == Some(Plane::YZ) <==> aabb.min_max is Some && {flat('rx')} && !({flat('ry')}) && !({flat('rz')}),
        r == Some(Plane::XZ) <==> aabb.min_max is Some && !({flat('rx')}) && {flat('ry')} && !({flat('rz')}),
        r == Some(Plane::XY) <==> aabb.min_max is Some && !({flat('rx')}) && !({flat('ry')}) && {flat('rz')}"""
    s.fn(R3, "Plane", "get_plane_relaxed", req=req, ens=ens,
         hints=[("entry", "proof { ax_zero_over_zero::<T::Scalar>(); }"),
                (("before", "let dx = T :: Scalar :: ZERO . ulps_eq"), """proof {
                    if rv(max_delta) != 0real { lemma_ratio(dx, max_delta); lemma_ratio(dy, max_delta); lemma_ratio(dz, max_delta); }
                }""")])
    s.fn(R3, "Plane", "get_plane", req=req, ens=ens)
    inv = lambda f: f"""invariant
            it@K@.seq() =~= self@.map_values(|t: T| &t),
            out__@.len() == it@K@.index@,
            forall|i: int| 0 <= i < out__@.len() ==> {f}(plane, self@[i], #[trigger] out__@[i]),"""
    loops = lambda f: [("for", inv(f).replace("@K@", str(k))) for k in range(3)]
    el = [(("body_start", k), f"proof {{ assert(*it{k}.seq()[it{k}.index@] == self@[it{k}.index@]); }}") for k in range(3)]
    s.trait_decls = {"LineString2": 1, "LineString3": 1}
    s.parts.append(("trait", ("LineString2", "LineString2<T: GenericVector2>", "")))
    s.parts.append(("trait", ("LineString3", "LineString3<T: GenericVector3>", "")))
    s.fn(R2, "LineString2 for Vec", "copy_to_3d", ens="""r@.len() == self@.len(),
        forall|i: int| 0 <= i < r@.len() ==> lifted_ls(plane, self@[i], #[trigger] r@[i])""", loops=loops("lifted_ls"), hints=el, attrs="#[verifier::loop_isolation(false)]")
    s.fn(R3, "LineString3 for Vec", "copy_to_2d", ens="""r@.len() == self@.len(),
        forall|i: int| 0 <= i < r@.len() ==> dropped_ls(plane, self@[i], #[trigger] r@[i])""", loops=loops("dropped_ls"), hints=el, attrs="#[verifier::loop_isolation(false)]")
    return s
