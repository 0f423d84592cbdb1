#!/usr/bin/env python3
"""Writes src/arity_gen.rs: static queries of every arity 1..10."""
K = ["P4", "H2", "BX", "L24", "ZD", "A64", "B3", "A16", "C12", "N8"]
out = ["// generated by gen_arity.py", "use crate::kinds::*;", "use crate::sysa::{aq, AQ, ID};", "use arche_tape::{EcsIds, World, EcsId};", ""]
out.append("pub fn queries() -> Vec<AQ> {\n    vec![")
seen = set()
for n in range(1, 11):
    for rot in (0, 3, 7):
        for mut in (0, 1, 2):
            for idpos in (None, 0, n // 2, n - 1):
                if idpos is None and mut == 2:
                    continue
                if idpos is not None and mut != 2:
                    continue
                cols, tys, vs = [], [], []
                for i in range(n):
                    step = 3 if rot == 7 else 1
                    k = (rot + i * step) % 10
                    vs.append("v%d" % i)
                    if idpos == i:
                        cols.append("ID"); tys.append("EcsIds")
                    else:
                        m = (i + rot) % 2 == 0 if mut == 2 else (i % 2 == mut)
                        cols.append(str(k)); tys.append("&'static %s%s" % ("mut " if m else "", K[k]))
                key = tuple(tys)
                if key in seen:
                    continue
                seen.add(key)
                out.append("        aq!((%s), [%s], (%s), (%s))," % (", ".join(tys) + ("," if n == 1 else ""), ", ".join(cols), ", ".join(vs) + ("," if n == 1 else ""), " ".join(vs)))
out.append("    ]\n}")
open("src/arity_gen.rs", "w").write("\n".join(out) + "\n")
print(len(seen))
KK = ["P4", "H2", "BX", "L24", "ZD", "A64", "B3", "A16"]
o = ["", "pub fn positions() -> Vec<crate::sysq::QDef> {", "    use crate::sysq::sq;", "    vec!["]
for n in range(1, 11):
    for i in range(n):
        for m in (0, 1):
            tys, needs = [], []
            for j in range(n):
                k = (j + 8 - i) % 8
                if j == i:
                    k = 0
                elif k == 0 or abs(j - i) > 7:
                    tys.append("EcsIds"); continue
                w = m and j == i
                tys.append("&'static %s%s" % ("mut " if w else "", KK[k]))
                needs.append("(%d, %s)" % (k, "true" if w else "false"))
            o.append("        sq!((%s), [%s])," % (", ".join(tys), ", ".join(needs)))
o.append("    ]\n}")
open("src/arity_gen.rs", "a").write("\n".join(o) + "\n")
