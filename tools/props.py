"""What decides each property."""
PROPS = {
    "L01": dict(spec="L01", search="seg_intersection", level="proof"),
    "L02": dict(spec="L02", search="line_queries", level="proof"),
    "L03": dict(spec="L03", search="ray", level="proof"),
    "L04": dict(spec="L04", search="self_intersection", level="proof"),
    "L05": dict(spec=["L05", "L05_x"], search="sweep", level="proof"),
    "L06": dict(spec="L06", search="hull_seq", level="proof"),
    "L07": dict(spec="L07", search="hull_par", level="proof"),
    "L08": dict(spec="L08", search="hull_contains", level="proof"),
    "L09": dict(spec=["L09", "L09_3"], search="rdp", level="proof"),
    "L10": dict(spec=["L10", "L10_3"], search="vw", level="proof"),
    "L11": dict(spec="L11", search="shapes", level="proof"),
    "L12": dict(spec="L12", search="aabb_bounds", level="proof"),
    "L13": dict(spec="L13", search="aabb_contains", level="proof"),
    "L14": dict(spec="L14", search="plane", level="proof"),
    "L15": dict(spec="L15", search="affine", level="proof"),
    "L16": dict(spec=["L16", "L16_3"], search="discretize", level="proof"),
    "L17": dict(spec="L17", search="distance", level="proof"),
    "L18": dict(spec=["L18", "L18_3"], search="views", level="proof"),
    "L19": dict(spec="L19", search="parabola", level="proof"),
    "L20": dict(spec="L20", search="obj", level="proof"),
}

NOT_APPLICABLE = {
}
