"""Development aid: run checks against textual mutants of /repo (in scratch copies, never in /repo).
usage: mutate.py FILE.json [jobs]   FILE.json: [{"id","file","old","new","checks":["C21",...]}]"""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(m):
    d = tempfile.mkdtemp(prefix="mut_")
    r = os.path.join(d, "repo")
    shutil.copytree("/repo", r, symlinks=True, ignore=shutil.ignore_patterns(".git", "build", "*.o", "*.stl", "*.bag", "*.gif", "*.png"))
    res = {}
    try:
        edits = m.get("edits") or [[m["file"], m["old"], m["new"]]]
        for f, old, new in edits:
            p = os.path.join(r, f)
            t = open(p).read()
            if old not in t:
                return m["id"], {"-": "PATTERN NOT FOUND: " + old[:60]}
            open(p, "w").write(t.replace(old, new, m.get("count", 1)))
        e = dict(os.environ, VP_REPO=r, VP_EVIDENCE=os.path.join(d, "ev"))
        for c in m["checks"]:
            q = subprocess.run([sys.executable, os.path.join(V, "tools/check.py"), c, "quick"], capture_output=True, text=True, env=e)
            txt = (q.stdout + q.stderr).strip().splitlines()
            res[c] = {0: "MISSED", 1: "caught"}.get(q.returncode, "rc%d" % q.returncode)
            if q.returncode == 1:
                res[c] += "  " + " ".join(t for t in txt if "MISMATCH" in t or "rejects" in t or "survive" in t)[:160]
            elif q.returncode:
                res[c] += " " + " | ".join(txt[-6:])[-600:]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return m["id"], res


if __name__ == "__main__":
    ms = json.load(open(sys.argv[1]))
    with cf.ThreadPoolExecutor(int(sys.argv[2]) if len(sys.argv) > 2 else 3) as ex:
        for i, r in ex.map(one, ms):
            for c, t in r.items():
                print("%-28s %s %s" % (i, c, t), flush=True)
