#!/usr/bin/env python3
"""Compiles the encodings and the native replay binaries in advance, so that the checks start warm."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild as vb, specs
vb.build_engine()
for pid, p in specs.PROPS.items():
    for u in p["units"]:
        try:
            h = os.path.join(vb.VERIF, "harness", u["harness"])
            vb.build_bc(h, u["groups"], [e["entry"] for e in u["entries"]], u.get("exclude", ()), u.get("defs", ()))
            vb.build_nat(h, u["groups"], u.get("exclude", ()), u.get("defs", ()))
        except vb.BuildError as e:
            print(pid, "not prebuilt:", str(e)[:500])
import subprocess
for pid in ("C26",):
    subprocess.call(["python3-vt", os.path.join(vb.VERIF, "lib", "checkpy.py"), pid, "--build"])
