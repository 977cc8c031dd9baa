#!/usr/bin/env python3
"""Writes harness/src/tuples.rs: every shape of tuple that C20 builds a Global from."""
from itertools import combinations
out = []
def rgs(n):
    def rec(p, m):
        if len(p) == n:
            yield tuple(p); return
        for i in range(m + 1):
            yield from rec(p + [i], max(m, i + 1))
    yield from rec([], 0)
for n in range(1, 6):
    out += list(rgs(n))
for n in range(6, 13):
    out.append(tuple(range(n)))
    out.append((0,) * n)
    out.append(tuple(reversed(range(n))))
    for i, j in combinations(range(n), 2):
        t = list(range(n)); t[j] = i
        out.append(tuple(t))
        t = list(range(n)); t[i] = j
        out.append(tuple(t))
out = list(dict.fromkeys(out))
with open(__file__.rsplit('/', 1)[0] + '/harness/src/tuples.rs', 'w') as f:
    f.write("// Generated by gen_tuples.py: the type at each position of each tuple.\n#[macro_export]\nmacro_rules! all_tuples {\n    ($m:ident) => {\n        $m! {\n")
    for t in out:
        f.write("            [%s]\n" % " ".join(map(str, t)))
    f.write("        }\n    };\n}\n")
print(len(out))
