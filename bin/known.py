#!/usr/bin/env python3
"""Regenerates the 'fixed' list of known_findings.json from /repo's fix: commits; findings are kept."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "known_findings.json")
old = json.load(open(p)) if os.path.exists(p) else {"findings": []}
RULES = [("optional_unique_ptr", "C09"), ("small_vector", "C07"), ("fixed_", "C08"), ("printing to a file", "C01"),
         ("deleter", "C09"), ("string_container", "C10"), ("UTF-32", "C10"), ("code point to a string", "C10"), ("append_range", "C07")]
OVER = json.load(open(os.path.join(V, "bin", "fix_property.json"))) if os.path.exists(os.path.join(V, "bin", "fix_property.json")) else {}
out = []
for line in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    pid = OVER.get(s[5:]) or next((b for a, b in RULES if a in s), "?")
    out.append("fixed: property=%s %s %s" % (pid, h[:12], s[5:]))
json.dump({"findings": old.get("findings", []), "fixed": out}, open(p, "w"), indent=1)
print("\n".join(out))
