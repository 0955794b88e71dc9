#!/usr/bin/env python3
"""Runs the checks on edited copies of /repo: edits that break a property must
be reported by that property's check, edits that keep the behaviour must leave
the checks quiet.  Not part of the checks; nothing in them reads this folder.

  run.py [-j N] [-k substring] [-p PROP,...]"""
import sys, os, shutil, subprocess, tempfile, argparse, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
SRC = os.environ.get("VERIF_REPO", "/repo")
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)


def apply(root, edits):
    for f, old, new in edits:
        p = os.path.join(root, f)
        t = open(p).read()
        n = t.count(old)
        if n == 0:
            raise SystemExit("edit does not apply to %s: %r" % (f, old[:80]))
        # an edit applies to every occurrence
        open(p, "w").write(t.replace(old, new))


def one(job):
    name, edits, props, good = job
    d = tempfile.mkdtemp(prefix="selftest-")
    try:
        shutil.copytree(SRC + "/include", d + "/repo/include")
        shutil.copytree(SRC + "/src", d + "/repo/src")
        shutil.copytree(V, d + "/verif", ignore=shutil.ignore_patterns(".git", ".cache", "evidence", "seeded"))
        os.makedirs(d + "/verif/evidence")
        try:
            apply(d + "/repo", edits)
        except SystemExit as x:
            return name, [(props[0], "NOAPPLY " + str(x), "")], good
        out = []
        for p in props:
            env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_SEED="1", VERIF_TIER="quick")
            r = subprocess.run([sys.executable, "check.py", p, "--tier", "quick"], cwd=d + "/verif", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            out.append((p, r.returncode, r.stdout))
        return name, out, good
    finally:
        shutil.rmtree(d)


def main():
    a = argparse.ArgumentParser()
    a.add_argument("-j", type=int, default=3)
    a.add_argument("-k", default="")
    a.add_argument("-p", default="")
    a.add_argument("-v", action="store_true")
    o = a.parse_args()
    import edits
    jobs = []
    only = set(o.p.split(",")) if o.p else None
    for name, props, es in edits.BAD:
        props = [p for p in props if not only or p in only]
        if o.k in name and props:
            jobs.append((name, es, props, False))
    for name, props, es in edits.GOOD:
        props = [p for p in props if not only or p in only]
        if o.k in name and props:
            jobs.append((name, es, props, True))
    bad = 0
    with cf.ThreadPoolExecutor(o.j) as ex:
        for name, out, good in ex.map(one, jobs):
            codes = [c for _, c, _ in out]
            ok = all(c == 0 for c in codes) if good else any(c == 1 for c in codes)
            bad += not ok
            print("%s %-45s %s" % ("ok  " if ok else "FAIL", name, " ".join("%s:%s" % (p, c) for p, c, _ in out)), flush=True)
            if not ok or o.v:
                for p, c, t in out:
                    if good and c == 0:
                        continue
                    for l in t.splitlines()[:4]:
                        print("        " + l[:260], flush=True)
    print("%d edits, %d wrong" % (len(jobs), bad))
    return bool(bad)


if __name__ == "__main__":
    sys.exit(main())
