#!/usr/bin/env python3
"""Helper for planting bugs: make(id, property, needs, what, [(file, old, new)], demo source)."""
import json, os, subprocess, sys, tempfile
def make(id, prop, needs, what, edits, demo, files=()):
    d = f"/verif/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    wt = tempfile.mkdtemp(prefix="seedwt")
    os.rmdir(wt)
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", wt, "HEAD"])
    try:
        for f, old, new in edits:
            p = f"{wt}/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", wt, "diff"], text=True)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "remove", "--force", wt])
    open(d + "/patch.diff", "w").write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.cpp", "w").write(demo)
    for f in files:
        open(f"{d}/{os.path.basename(f)}", "w").write(open(f).read())
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
DEMO = r'''#!/bin/bash
# Compiles demo.cpp against the objects of the build and runs it in a scratch directory of its own.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; B=$R/_build
T=$(mktemp -d) || exit 9; trap 'rm -rf "$T"' EXIT
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_plm=isolated OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 OMPI_MCA_orte_tmpdir_base=$T
g++ -std=c++14 -O0 -w -I$B/gen/include -I/usr/lib/x86_64-linux-gnu/openmpi/include -I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi \
  -I/usr/include/mfem -I/usr/include/hypre -I/usr/include/hdf5/serial "$D/demo.cpp" $(find "$B/CMakeFiles/scaleupROMObj.dir" -name '*.o') \
  -lmfem -lHYPRE -lhdf5_serial -lyaml-cpp -llapack -lblas -lmetis -lmpi_cxx -lmpi -L/usr/lib/x86_64-linux-gnu/hdf5/serial -L/usr/lib/x86_64-linux-gnu/openmpi/lib -o "$T/demo" || exit 9
cd "$T" && timeout 120 ./demo
'''
