#!/usr/bin/env python3
"""Writes harness/topo_tables.h: one edge mask per isomorphism class of graphs."""
import itertools, os
def classes(n):
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    pos = {p: k for k, p in enumerate(pairs)}
    perms = list(itertools.permutations(range(n)))
    maps = []
    for p in perms:
        maps.append([pos[tuple(sorted((p[i], p[j])))] for i, j in pairs])
    seen = bytearray(1 << len(pairs))
    out = []
    for m in range(1 << len(pairs)):
        if seen[m]:
            continue
        bits = [k for k in range(len(pairs)) if m >> k & 1]
        for mp in maps:
            x = 0
            for b in bits:
                x |= 1 << mp[b]
            seen[x] = 1
        adj = [[] for _ in range(n)]
        for k in bits:
            i, j = pairs[k]
            adj[i].append(j); adj[j].append(i)
        st, vis = [0], {0}
        while st:
            v = st.pop()
            for u in adj[v]:
                if u not in vis:
                    vis.add(u); st.append(u)
        out.append((m, len(vis) == n))
    return out
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "topo_tables.h"), "w") as f:
    f.write("// Generated by tools/gen_topo.py: representatives of the isomorphism classes of\n"
            "// simple graphs; bit k of a mask is the k-th pair (0,1),(0,2),...,(1,2),...\n"
            "#ifndef TOPO_TABLES_H\n#define TOPO_TABLES_H\n")
    for n in range(2, 7):
        c = classes(n)
        con = [m for m, k in c if k]
        dis = [m for m, k in c if not k]
        f.write(f"static const unsigned topo_con_{n}[] = {{{', '.join(map(str, con))}}};  // connected\n")
        f.write(f"static const unsigned topo_dis_{n}[] = {{{', '.join(map(str, dis))}}};  // disconnected\n")
        print(n, len(con), len(dis))
    f.write("#endif\n")
