#!/usr/bin/env python3
"""Makes seeded/<id>/ from a spec file: python dict with id, property, edits [(file, old, new)], demo (C++ source), needs, breaks."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/tmp/seedw/repo"
DEMO = '''#!/bin/bash
# exit 0: the property holds; run with cwd = the repository after its build
set -u
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++20 -g -O1 %(flags)s -Iinclude "$here/demo.cpp" _build/main/libpapilio.a -pthread -o "$tmp/demo" || exit 4
cd "$tmp" && timeout 120 ./demo
'''
def main():
    for spec in sys.argv[1:]:
        g = {}
        exec(open(spec).read(), g)
        for s in g["SEEDS"]:
            subprocess.run(["git", "-C", R, "checkout", "-q", "-f", "."], check=True)
            for f, old, new in s["edits"]:
                p = os.path.join(R, f)
                t = open(p).read()
                assert t.count(old) >= 1, (s["id"], f, "not found", old)
                assert t.count(old) == 1 or s.get("first"), (s["id"], f, "ambiguous", t.count(old), old)
                open(p, "w").write(t.replace(old, new, 1))
            d = subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True).stdout
            subprocess.run(["git", "-C", R, "checkout", "-q", "-f", "."], check=True)
            out = os.path.join(V, "seeded", s["id"])
            os.makedirs(out, exist_ok=True)
            open(out + "/patch.diff", "w").write(d)
            open(out + "/demo.sh", "w").write(DEMO % dict(flags=s.get("flags", "")))
            open(out + "/demo.cpp", "w").write(s["demo"].lstrip())
            json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(out + "/meta.json", "w"), indent=1)
            print("made", s["id"])
main()
