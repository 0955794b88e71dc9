#!/usr/bin/env python3
"""Applies as many behaviour-preserving edits together as fit into one copy of the repository and runs every check
on it; repeats until each edit was part of one run.  batch.py <name prefix> [-p PROP,..]"""
import sys, os, shutil, subprocess, tempfile, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import edits
SRC = os.environ.get("VERIF_REPO", "/repo")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pre = sys.argv[1]
props = sys.argv[3].split(",") if len(sys.argv) > 3 else ["A%02d" % i for i in range(1, 27)]
todo = [(n, es) for n, p, es in edits.GOOD if n.startswith(pre)]
k = 0
while todo:
    k += 1
    d = tempfile.mkdtemp(prefix="batch-")
    shutil.copytree(SRC + "/include", d + "/include")
    shutil.copytree(SRC + "/src", d + "/src")
    used, rest = [], []
    touched = {}
    for n, es in todo:
        if any(open(os.path.join(d, f)).read().count(o) != open(os.path.join(SRC, f)).read().count(o) or not open(os.path.join(d, f)).read().count(o) for f, o, w in es):
            rest.append((n, es))
            continue
        for f, o, w in es:
            q = os.path.join(d, f)
            t = open(q).read()
            open(q, "w").write(t.replace(o, w))
        used.append(n)
    print("batch %d: %s" % (k, " ".join(used)), flush=True)
    if not used:
        print("do not apply:", [n for n, _ in rest])
        break
    for p in props:
        r = subprocess.run([sys.executable, V + "/check.py", p, "--tier", "quick"], env=dict(os.environ, VERIF_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print("  %s exit %d" % (p, r.returncode))
            for l in r.stdout.splitlines()[:8]:
                print("      " + l[:300])
            sys.stdout.flush()
    print("batch %d done" % k, flush=True)
    shutil.rmtree(d)
    todo = rest
