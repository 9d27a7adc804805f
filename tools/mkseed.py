#!/usr/bin/env python3
"""mkseed.py SPEC.py: (re)create planted bugs under /verif/seeded from a list SEEDS of dicts:
   id, property, needs, breaks, edits [(file, old, new)], and either
   cpp (a demo main, compiled against /repo with the stand-in headers), srcs, libs; or
   node (app source or None), srcs, extra, defs, libs, py (a python oracle reading the events of `scenario`)."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = '''#!/bin/bash
# exit 0: the property holds for the history below; non-zero: it is broken.  Run with the repository as cwd.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
W=$(mktemp -d /tmp/demo-XXXXXX); trap 'rm -rf "$W"' EXIT
INC=""; for d in "$R"/*/include; do INC="$INC -I$d"; done
C="g++ -std=c++17 -O1 -w -D_GLIBCXX_ASSERTIONS -DFMT_HEADER_ONLY -I$D/stubs/inc -I$D/stubs -I$D $INC -isystem /usr/include/eigen3 -isystem /usr/include/pcl-1.14"
'''


def make(s, repo="/repo"):
    d = os.path.join(V, "seeded", s["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    t = tempfile.mkdtemp(prefix="seed-")
    try:
        subprocess.run("git -C %s archive HEAD | tar x -C %s" % (repo, t), shell=True, check=True)
        subprocess.run("git init -q . && git add -A && git -c user.email=a@b -c user.name=x commit -qm base", shell=True, cwd=t, check=True)
        if "py_only" not in s:
            shutil.copytree(V + "/harness/stubs", d + "/stubs")
        for f in s.get("data", []):
            shutil.copy(f, d)
        sh = COMMON
        if "cpp" in s:
            open(d + "/demo.cpp", "w").write(s["cpp"])
            sh += '$C "$D/demo.cpp" %s -o "$W/demo" %s -lpthread || exit 99\n' % (" ".join('"$R"/' + x for x in s.get("srcs", [])), " ".join(s.get("libs", [])))
            sh += 'cd "$W" && timeout 60 ./demo\n'
        elif "py_only" in s:
            open(d + "/demo.py", "w").write(s["py_only"])
            sh += 'timeout 120 python3-vt "$D/demo.py" "$R"\n'
        else:
            for f in ("vjson.hpp", "forkrun.hpp", "sim_main.cpp"):
                shutil.copy(V + "/harness/" + f, d)
            src = ['"$D/sim_main.cpp"'] + ['"$R"/' + x for x in s["srcs"]]
            if s.get("extra"):
                shutil.copy(V + "/harness/" + s["extra"], d)
                src.append('"$D/%s"' % s["extra"])
            open(d + "/demo.py", "w").write(s["py"])
            sh += 'N=0; for f in %s; do N=$((N+1)); (%s $C %s -c "$f" -o "$W/$N.o") & done\n' % (
                " ".join(src + (['"$R"/' + s["node"]] if s.get("node") else [])),
                'X=""; [ "$f" = "$R/%s" ] && X="-Dmain=app_main";' % s.get("node", "none"), "$X " + " ".join(s.get("defs", [])))
            sh += 'for p in $(jobs -p); do wait "$p" || exit 99; done\n'
            sh += 'g++ "$W"/*.o -o "$W/node" %s -lpthread || exit 99\n' % " ".join(s.get("libs", []))
            sh += 'cd "$W" && timeout 120 python3 "$D/demo.py" "$W"\n'
        open(d + "/demo.sh", "w").write(sh)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r0 = subprocess.run([d + "/demo.sh"], cwd=t, capture_output=True, text=True)
        for f, o, n in s["edits"]:
            p = os.path.join(t, f)
            x = open(p).read()
            assert o in x, (s["id"], f, o)
            open(p, "w").write(x.replace(o, n, 1))
        diff = subprocess.run(["git", "diff"], cwd=t, capture_output=True, text=True).stdout
        open(d + "/patch.diff", "w").write(diff)
        r1 = subprocess.run([d + "/demo.sh"], cwd=t, capture_output=True, text=True)
        ok = r0.returncode == 0 and r1.returncode not in (0, 99)
        print(s["id"], "clean", r0.returncode, "patched", r1.returncode, "OK" if ok else "BAD")
        if not ok:
            print(r0.stdout[-800:], r0.stderr[-1500:], r1.stdout[-800:], r1.stderr[-800:])
        return ok
    finally:
        shutil.rmtree(t, ignore_errors=True)


if __name__ == "__main__":
    spec = importlib.util.spec_from_file_location("m", sys.argv[1])
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    bad = [s["id"] for s in mod.SEEDS if (len(sys.argv) < 3 or s["id"] in sys.argv[2:]) and not make(s)]
    sys.exit(1 if bad else 0)
