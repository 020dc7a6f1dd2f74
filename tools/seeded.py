"""Development aid: run each planted bug's check on a scratch copy of /repo with the bug applied.
usage: seeded.py [id ...]   (writes nothing; prints caught / MISSED)"""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(i):
    s = os.path.join(V, "seeded", i)
    prop = json.load(open(os.path.join(s, "meta.json")))["property"]
    d = tempfile.mkdtemp(prefix="seed_")
    try:
        r = os.path.join(d, "repo")
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        a = subprocess.run(["git", "-C", r, "apply", os.path.join(s, "patch.diff")], capture_output=True, text=True)
        if a.returncode:
            return i, prop, "DOES NOT APPLY"
        q = subprocess.run([sys.executable, os.path.join(V, "tools/check.py"), prop, "quick"], capture_output=True, text=True,
                           env=dict(os.environ, VP_REPO=r, VP_EVIDENCE=os.path.join(d, "ev")))
        v = q.returncode == 1 and ("VIOLATION property=%s " % prop) in q.stdout
        return i, prop, "caught" if v else "MISSED rc=%d %s" % (q.returncode, (q.stdout + q.stderr)[-300:] if q.returncode else "")
    finally:
        shutil.rmtree(d, ignore_errors=True)


ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
with cf.ThreadPoolExecutor(3) as ex:
    for r in ex.map(one, ids):
        print("%-36s %s %s" % r, flush=True)
