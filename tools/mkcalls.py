"""Writes tools/known_calls.json: the calls the contracts know on the tree they were written for, and the names vstd
gives an exact contract. A failed obligation of a function that calls anything else is not reported as a violation (the proof
lacks the contract of the callee), nor one of a function whose statements are the same in another order (the hints of the
proof may have lost their place); the bounded search then decides."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(HERE, "..", "verus", "specs")]
from props import PROPS  # noqa: E402

# given an exact contract by vstd (tried one by one)
STD = """is_some is_none is_ok is_err expect unwrap as_ref ok_or ok unwrap_or unwrap_or_default map and_then get_or_insert cloned
checked_add checked_sub checked_mul saturating_add saturating_sub wrapping_add wrapping_sub min max is_multiple_of insert truncate
swap_remove append extend_from_slice split_off split_at split_first split_last first last push pop len remove is_empty clear""".split()


def main():
    calls, closures, shapes = set(), set(), {}
    for pid, cfg in PROPS.items():
        specs = cfg.get("spec") or []
        for name in specs if isinstance(specs, list) else [specs]:
            s = importlib.import_module(name).spec("/repo")
            s.build()
            for f in s.fnspecs:
                shapes[f"{name}|{f.rel}|{f.label}"] = f.shape
                for w in f.words:
                    if w == "closure":
                        closures.add(f.label)
                    else:
                        calls.add(w)
    json.dump({"calls": sorted(calls), "std": sorted(set(STD) - calls), "closures": sorted(closures), "shapes": dict(sorted(shapes.items()))}, open(os.path.join(HERE, "known_calls.json"), "w"), indent=0)
    print(len(calls), closures)


if __name__ == "__main__":
    main()
