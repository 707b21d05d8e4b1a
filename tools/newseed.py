#!/usr/bin/env python3
"""newseed.py SPEC.py: write /verif/seeded/<id>/ from a spec with ID PROP NEEDS BREAKS EDITS=[(file,old,new)] DEMO [FLAGS]"""
import json, os, subprocess, sys
subprocess.run('git -C /tmp/sr fetch -q origin; git -C /tmp/sr reset -q --hard "$(git -C /repo rev-parse HEAD)"', shell=True, check=True)
for spec in sys.argv[1:]:
    ns = {}
    exec(open(spec).read(), ns)
    seeds = ns.get("SEEDS") or [ns]
    for s in seeds:
        d = "/verif/seeded/" + s["ID"]
        os.makedirs(d, exist_ok=True)
        assert subprocess.run(["git", "-C", "/tmp/sr", "status", "--short", "-uno"], capture_output=True, text=True).stdout == "", "dirty"
        try:
            for f, old, new in s["EDITS"]:
                p = "/tmp/sr/HeuristicFlow/src/" + f
                t = open(p, encoding="utf-8").read()
                crlf = "\r\n" in t
                raw = open(p, "rb").read().decode("utf-8")
                if crlf or "\r\n" in raw:
                    old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
                n = raw.count(old)
                assert n == s.get("COUNT", 1), (s["ID"], f, n)
                open(p, "wb").write(raw.replace(old, new).encode("utf-8"))
            # the patch has to change lines of the original repository, not only those of fix commits
            base = subprocess.run(["git", "-C", "/tmp/sr", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.strip()
            orig = 0
            for f in sorted({e[0] for e in s["EDITS"]}):
                p = "HeuristicFlow/src/" + f
                dl = [l for l in subprocess.run(["git", "-C", "/tmp/sr", "diff", "-U0", "--", p], capture_output=True, text=True).stdout.splitlines()
                      if l.startswith("-") and not l.startswith("---") and l[1:].strip()]
                old = {l.strip() for l in subprocess.run(["git", "-C", "/tmp/sr", "show", base + ":" + p], capture_output=True, text=True).stdout.splitlines()}
                orig += sum(1 for l in dl if l[1:].strip() in old)
            if not orig:
                print("NOTE", s["ID"], "changes no original line")
            diff = subprocess.run(["git", "-C", "/tmp/sr", "diff"], capture_output=True).stdout
        finally:
            subprocess.run(["git", "-C", "/tmp/sr", "checkout", "-q", "--", "."])
        open(d + "/patch.diff", "wb").write(diff)
        open(d + "/demo.cpp", "w").write(s["DEMO"])
        for f, c in s.get("FILES", {}).items():
            open(d + "/" + f, "w").write(c)
        open(d + "/demo.sh", "w").write(s["SH"] if "SH" in s else '''#!/bin/bash
# run with cwd /repo: 0 when the library behaves, 1 when it does not
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -fconcepts -O1 -w -D_USE_MATH_DEFINES -I/usr/include/eigen3 -I. %s -o "$T/demo" || exit %d
OMP_NUM_THREADS=${OMP_NUM_THREADS:-2} timeout 200 "$T/demo"
''' % (s.get("FLAGS", "-fopenmp") + ' ' + s.get("UNITS", '"$D/demo.cpp"'), s.get("BUILDFAIL", 3)))
        json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
        print("wrote", s["ID"])
