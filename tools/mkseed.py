#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes seeded/<id>/ from a Python spec (edits, demo, meta)."""
import sys, os, json, subprocess, shutil, tempfile
DEMO = '''#!/bin/bash
# Exit 0 if the behaviour is right, nonzero otherwise. Run in the repository.
d="$(cd "$(dirname "$0")" && pwd)"
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cat > "$t/o.json" <<EOF
{"Replace": {"$PWD/PKGzz_demo_test.go": "$d/demo_test.go"}}
EOF
go test RACE-overlay "$t/o.json" -run 'TestDemo' -count=1 -timeout 120s ./PKG
'''
def make(id, prop, edits, demo, needs, breaks, pkg="", race=False):
    d = f"/verif/seeded/{id}"
    w = tempfile.mkdtemp(prefix="/tmp/mk.")
    try:
        subprocess.check_call(["cp", "-a", "/repo/.", w])
        for f, a, b in edits:
            p = os.path.join(w, f)
            s = open(p).read()
            assert s.count(a) == 1, (id, f, s.count(a), a)
            open(p, "w").write(s.replace(a, b))
        if edits[0][0].endswith(".go"): subprocess.check_call(["gofmt", "-l", w + "/" + edits[0][0]])
        diff = subprocess.check_output(["git", "-C", w, "diff"], text=True)
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo_test.go", "w").write(demo.lstrip())
        open(d + "/demo.sh", "w").write(DEMO.replace("PKG", pkg + "/" if pkg else "").replace("RACE", "-race " if race else "").replace(".//", "./"))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    finally:
        shutil.rmtree(w)
if __name__ == "__main__":
    exec(open(sys.argv[1]).read())
