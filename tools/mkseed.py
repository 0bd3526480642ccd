#!/usr/bin/env python3
"""mkseed.py SPEC.json : create seeded/<id>/ from {id, property, needs, what_it_breaks, edits:[[file, old, new]], demo (C++ source) | demo_sh}; uses a scratch clone in /tmp/sr"""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SR = "/tmp/sr"
SH = """#!/bin/bash
# exit 0: the behaviour is right; non-zero: broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
R=$PWD
g++ -std=c++17 -O1 -w -DFMT_SHARED -DDIY_NO_THREADS -I$R/include -I$R/_build/include %(flags)s "$D/demo.cpp" -o "$T/demo" %(libs)s || exit 3
cd "$T"
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_btl=self,vader OMPI_MCA_plm=isolated
timeout 200 "$T/demo"
"""
FULLSH = r"""#!/bin/bash
# exit 0: the behaviour is right; non-zero: broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
R=$PWD; B=$R/_build/tests
F=$B/CMakeFiles/test_matrix.dir/flags.make; L=$B/CMakeFiles/test_matrix.dir/link.txt
INC=$(sed -n 's/^CXX_INCLUDES = //p' $F); DEF=$(sed -n 's/^CXX_DEFINES = //p' $F)
mpicxx -std=gnu++17 -O0 -w -fPIC $DEF -I$R/include $INC -c "$D/demo.cpp" -o "$T/demo.o" || exit 3
(cd $B && eval "$(sed "s#CMakeFiles/test_matrix.dir/test_matrix.cpp.o#$T/demo.o#; s# -o test_matrix # -o $T/demo #" $L)") || exit 3
cd "$T"
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_btl=self,vader OMPI_MCA_plm=isolated OMPI_MCA_hwloc_base_binding_policy=none
timeout 100 %(run)s "$T/demo"
"""
FULL = ("$(pkg-config --cflags ompi-cxx 2>/dev/null) -I/usr/lib/x86_64-linux-gnu/openmpi/include -I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi -I/usr/include/hdf5/serial -I/usr/include/vtk-9.1 -I/usr/include/jsoncpp", "")
for s in json.load(open(sys.argv[1])):
    d = f"{V}/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    subprocess.check_call(["git", "-C", SR, "checkout", "-q", "--", "."])
    subprocess.check_call(["git", "-C", SR, "fetch", "-q", "/repo", "HEAD"])
    subprocess.check_call(["git", "-C", SR, "reset", "-q", "--hard", "FETCH_HEAD"])
    for f, old, new in s["edits"]:
        p = f"{SR}/{f}"
        t = open(p).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old))
        open(p, "w").write(t.replace(old, new))
    open(f"{d}/patch.diff", "w").write(subprocess.check_output(["git", "-C", SR, "diff"], text=True))
    subprocess.check_call(["git", "-C", SR, "checkout", "-q", "--", "."])
    json.dump({k: s[k] for k in ("property", "needs", "what_it_breaks")}, open(f"{d}/meta.json", "w"), indent=1)
    if "demo" in s:
        open(f"{d}/demo.cpp", "w").write(s["demo"])
        open(f"{d}/demo.sh", "w").write(FULLSH.replace("%(run)s ", f"mpiexec -n {s['np']} " if s.get("np") else "") if s.get("full") else SH % dict(flags=s.get("flags", ""), libs=s.get("libs", "")))
    else:
        open(f"{d}/demo.sh", "w").write(s["demo_sh"])
    print("seed", s["id"])
