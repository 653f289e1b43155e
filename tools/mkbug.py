"""mkbug.make(id, property, needs, breaks, [(file, old, new)...], demo): writes seeded/<id>."""
import json, os, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run in the repository root: builds and runs the demonstration beside this file
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++20 -O1 -w -DNDEBUG -DSIMU_EXPORT -DSIMU_OS_LINUX %s-Iinclude -Isrc "$here/demo.cpp" $(find src/Simu/math src/Simu/physics -name '*.cpp') -o "$tmp/demo" || exit 2
timeout 60 "$tmp/demo"
'''


def make(id, prop, needs, breaks, edits, demo, flags=""):
    w = "/tmp/mk_" + id
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call("mkdir %s && git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q . && git add -A && git -c user.name=a -c user.email=b commit -qm x" % (w, w, w), shell=True)
    for f, a, b in edits:
        s = open(w + "/" + f).read()
        assert s.count(a) == 1, (id, f, s.count(a), a)
        open(w + "/" + f, "w").write(s.replace(a, b))
    d = V + "/seeded/" + id
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(subprocess.check_output("git diff", shell=True, cwd=w, text=True))
    open(d + "/demo.sh", "w").write(DEMO % flags)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.cpp", "w").write(demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(w)
