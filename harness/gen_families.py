#!/usr/bin/env python3
"""Writes src/families.rs: which curves are instantiated for which point type."""
import os
LONG = [(11, 12), (12, 13)] + [(d, c - top + d) for top, c in ((3, 64), (3, 20), (2, 33), (5, 16)) for d in range(top + 1)]
HUGE = [(d, c - top + d) for top, c in ((2, 130), (1, 259), (3, 258)) for d in range(top + 1)]    # beyond 64, 128 and 256
HUGEBEZ = [64, 65, 66, 128, 129, 256, 257]
fam = [  # point type, Rust type, Bezier sizes, splines (max degree, max C-D-1 extra)
    ("pn1", "PointN<f64, 1>", list(range(1, 10)) + [17] + HUGEBEZ, [(d, d + 1 + x) for d in range(0, 5) for x in range(0, 3)] + [(d, d + 1) for d in range(5, 11)] + [(d, d + 2) for d in range(5, 9)] + [(d, d + 9) for d in range(4)] + LONG + HUGE),
    ("pn2", "PointN<f64, 2>", list(range(1, 14)) + [16, 17, 18, 32, 33], [(d, d + 1 + x) for d in range(0, 6) for x in range(0, 7)] + [(d, d + 9) for d in range(4)]),
    ("pn3", "PointN<f64, 3>", range(1, 10), [(d, d + 1 + x) for d in range(0, 5) for x in range(0, 4)]),
    ("pn4", "PointN<f64, 4>", range(1, 6), [(d, d + 1 + x) for d in range(0, 4) for x in range(0, 2)]),
    ("pn5", "PointN<f64, 5>", range(1, 6), [(d, d + 1 + x) for d in range(0, 4) for x in range(0, 2)]),
    ("pn6", "PointN<f64, 6>", [1, 2, 3, 4], [(d, d + 1 + x) for d in range(0, 3) for x in range(0, 2)]),
    ("pn8", "PointN<f64, 8>", [1, 2, 3, 4], [(d, d + 1 + x) for d in range(0, 3) for x in range(0, 2)]),
    ("pn12", "PointN<f64, 12>", [1, 2, 3, 4], [(d, d + 1 + x) for d in range(0, 3) for x in range(0, 2)]),
    ("u6", "U6", [1, 2, 3, 4], [(d, d + 1 + x) for d in range(0, 3) for x in range(0, 2)]),
    ("ps2", "PointN<S, 2>", range(1, 8), [(d, d + 1 + x) for d in range(0, 5) for x in range(0, 3)]),
    ("u2", "U2", list(range(1, 10)) + [17], [(d, d + 1 + x) for d in range(0, 5) for x in range(0, 3)] + [(d, d + 9) for d in range(4)]),
    ("u3", "U3", range(1, 8), [(d, d + 1 + x) for d in range(0, 5) for x in range(0, 3)]),
    ("a3", "A3", range(1, 5), [(d, d + 1 + x) for d in range(0, 4) for x in range(0, 2)]),
    ("v2", "V2", range(1, 8), [(d, d + 1 + x) for d in range(0, 5) for x in range(0, 3)]),
]
def main():
    out = ["// generated by gen_families.py"]
    for pty, ty, bez, spl in fam:
        b = " ".join(f"{n} {'y' if n > 1 and n - 1 in bez else 'n'}" for n in bez)
        shapes = sorted(set(spl))
        s = " ".join(f"({c + d + 1} {c} {d} [{c + d - 1 if d >= 1 else ''}])" for d, c in shapes)
        for d, c in shapes:
            assert d == 0 or (d - 1, c - 1) in shapes, (pty, d, c)
        out.append(f'family!("{pty}", {ty}; bez [{b}]; spl [{s}]);')
    open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "src", "families.rs"), "w").write("\n".join(out) + "\n")


if __name__ == "__main__":
    main()
