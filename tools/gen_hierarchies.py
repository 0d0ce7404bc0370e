#!/usr/bin/env python3
"""Writes harness/src/c13_shapes.inc: every ordered tree of up to N classes, most derived class first."""
import functools, sys, pathlib
N = 7

@functools.lru_cache(None)
def forests(n):
    """All ordered forests with n nodes, as tuples of trees; a tree is the tuple of its children."""
    if n == 0:
        return [()]
    out = []
    for k in range(1, n + 1):
        for first in forests(k - 1):
            for rest in forests(n - k):
                out.append((first,) + rest)
    return out

def show(tree, counter):
    me = counter[0]
    counter[0] += 1
    return "C<%s>" % ", ".join([str(me)] + [show(t, counter) for t in tree])

lines = []
for n in range(1, N + 1):
    for f in forests(n - 1):
        lines.append("SHAPE(%d, %d, (%s))" % (n, len(lines), show(f, [0])))
out = pathlib.Path(__file__).resolve().parent.parent / "harness/src/c13_shapes.inc"
out.write_text("// generated by tools/gen_hierarchies.py\n" + "\n".join(lines) + "\n")
print(len(lines), "shapes")
