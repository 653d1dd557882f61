#!/usr/bin/env python3
"""combos.py FILE [t]: of the circumstances measured by `mc-<crate> features PROPS FILE`, the pairs (t = 2) of values, each met
somewhere for a kind of operation, that were never met together."""
import json, sys, itertools, collections
t = int(sys.argv[2]) if len(sys.argv) > 2 else 2
ref = sys.argv[3] if len(sys.argv) > 3 else None  # only combinations met in this other file
def load(fn):
    k = collections.defaultdict(set)
    for kind, f in json.load(open(fn)): k[kind].add(tuple(sorted((a, b) for a, b in f)))
    return k
def tuples(vs, t):
    s = set()
    for v in vs: s.update(itertools.combinations(v, t))
    return s
k = load(sys.argv[1]); r = load(ref) if ref else None
for kind in sorted(k):
    got = tuples(k[kind], t)
    if r is not None: miss = tuples(r[kind], t) - got
    else:
        lower = tuples(k[kind], t - 1)
        vals = sorted({x for v in k[kind] for x in v})
        miss = set()
        for c in itertools.combinations(vals, t):
            if len({a for a, _ in c}) < t or c in got: continue
            if all(d in lower for d in itertools.combinations(c, t - 1)): miss.add(c)
    print(f'{kind}: {len(k[kind])} circumstances, {t}-combinations met {len(got)}, not met {len(miss)}')
    if t == 2 or r is not None:
        for m in sorted(miss)[:400]: print('   ', ' '.join(f'{a}={b}' for a, b in m))
