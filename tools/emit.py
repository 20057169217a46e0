"""emit.py OUTDIR GROUP...: write <group>_<n>.asn, tables_<group>.hpp and bridge_<group>.cpp"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import schema, schemas


def emit(outdir, group):
    mods = schemas.GROUPS[group]
    files = []
    for i, m in enumerate(mods):
        p = os.path.join(outdir, "%s_%d.asn" % (group, i))
        with open(p, "w") as f:
            f.write(m.text())
        files.append(p)
    for m in mods:
        m.types = [d for d in m.types if d[1] is not None]
    g = schema.Generator(mods)
    with open(os.path.join(outdir, "tables_%s.hpp" % group), "w") as f:
        f.write("#pragma once\n" + g.tables_cpp("g_" + group))
    with open(os.path.join(outdir, "bridge_%s.cpp" % group), "w") as f:
        f.write(g.bridge_cpp("g_" + group, ["gen_%s.hpp" % group]).replace("tables_g_", "tables_"))
    return files


if __name__ == "__main__":
    for g in sys.argv[2:]:
        print(" ".join(emit(sys.argv[1], g)))
