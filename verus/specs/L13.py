from vgen import Spec

R2, R3 = "src/linestring_2d.rs", "src/linestring_3d.rs"


def spec(repo):
    s = Spec("L13", repo)
    s.prelude("vec")
    s.broadcast("scal", "vec2", "vec3")
    s.type(R2, "Aabb2", prefix="#[derive(Clone, Copy)]\n")
    s.type(R3, "Aabb3", prefix="#[derive(Clone, Copy)]\n")
    s.type(R2, "Line2", prefix="#[derive(Clone, Copy)]\n")
    s.type(R3, "Line3", prefix="#[derive(Clone, Copy)]\n")
    for n, R, A, c in (("2", R2, "Aabb2", ("rx", "ry")), ("3", R3, "Aabb3", ("rx", "ry", "rz"))):
        s.ghost(f"""pub open spec fn inb{n}<T>(b: (T, T), p: T) -> bool {{
    {' && '.join(f'{k}(b.0) <= {k}(p) && {k}(p) <= {k}(b.1)' for k in c)}
}}""")
        s.fn(R, A, "contains_point_inclusive_", ens=f"r == inb{n}(aabb, point)")
        s.fn(R, A, "contains_point_inclusive",
             ens=f"r == (self.min_max is Some && inb{n}(self.min_max->0, point))")
        s.fn(R, A, "contains_line_inclusive",
             ens=f"r == (self.min_max is Some && inb{n}(self.min_max->0, line.start) && inb{n}(self.min_max->0, line.end))")
        s.fn(R, A, "contains_aabb_inclusive",
             ens=f"r == (self.min_max is Some && other.min_max is Some && inb{n}(self.min_max->0, (other.min_max->0).0) && inb{n}(self.min_max->0, (other.min_max->0).1))")
    return s
